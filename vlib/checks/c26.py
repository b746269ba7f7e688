"""C26: objects are kept and found under their names."""
import c20
import iofx
import lists
import records
from absint import C, Interp, S, State, show, strip, subterms
from core import rel

RULE = ("RootFile::get_tree, keys, keys_name and put (for a WriterTree) are interpreted abstractly on files whose key lists are known: name, "
        "cycle and class of every key are literals, everything else is unknown. The only place of the file that get_tree looks "
        "at must be the one of the key asked for; put must leave the list as it was with one key behind it, of the name, title and class "
        "given and the next cycle, and write a header of the same contents; what must be refused must give an error on every path.")
ASSUMPTIONS = ["marshalling the object and looking up its streamer do not change the list of keys"]
KEY = "oxyroot::riofs::key::Key"
FILE = "oxyroot::riofs::file::RootFile"
# lists of keys: (name, cycle, class)
TABLES = {
    "empty": [],
    "one": [("t", 1, "TTree")],
    "cycles": [("t", 2, "TTree"), ("tt", 7, "TTree"), ("t", 10, "TTree"), ("u", 1, "TTree"), ("t", 9, "TTree"), ("T", 12, "TTree"), ("u", 2, "TTree")],
    "descending": [("a", 3, "TTree"), ("a", 2, "TTree"), ("a", 1, "TTree"), ("", 1, "TTree"), ("h", 4, "TH1F"), ("h b", 1, "TTree")],
}


class Files:
    def __init__(self, ctx):
        self.F = ctx.facts()
        self.T = c20.Trees(ctx)
        self.why = self.T.why
        t = iofx.IO(self.F).tree(records.KEYM)
        toks = records.toklist(t[1]) if t else []
        if len(toks) < 11:
            self.why = "what is written of a key is not known"
        if self.why:
            return
        strs = []
        for k, v in toks[records.SEEKKEY:]:
            if k == "str":
                v = strip(v)
                while v[0] == "phi":
                    v = strip(v[2][0][1])
                strs.append(v[2] if v[0] == "fld" and v[1] == ("p", "self") else None)
        cyc = strip(toks[records.CYCLE][1])
        if len(strs) != 3 or None in strs or cyc[0] != "fld" or cyc[1] != ("p", "self"):
            self.why = "the fields of a key are not known"
            return
        self.field = dict(zip(("class", "name", "title"), strs), cycle=cyc[2])
        self.names = [f for f, _ in self.F.adt_by_name[KEY]["variants"][0]["fields"]]

    def key(self, i, spec):
        d = {self.field["name"]: S(spec[0]), self.field["cycle"]: C(spec[1]), self.field["class"]: S(spec[2])}
        return ("adt", KEY, 0, tuple(d.get(f, ("sym", "key", i, f)) for f in self.names))

    def part(self, k, what):
        return k[3][self.names.index(self.field[what])]

    def file(self, table):
        arr = ("arr", tuple(self.key(i, s) for i, s in enumerate(table)))
        own = [("Vec<riofs::key::Key>", arr)]
        return ("adt", FILE, 0, tuple(self.T.build(ty, own, ("file", f)) for f, ty in self.F.adt_by_name[FILE]["variants"][0]["fields"])), arr

    def keys_of(self, st):
        """the keys of the file in a state"""
        for x in subterms(st.store[("C", "it")]):
            if x[0] in ("arr", "push", "ext", "upd", "mut") and self.holds(x):
                return list(x[1]) if x[0] == "arr" and all(y[0] == "adt" and y[1] == KEY for y in x[1]) else None
        return []

    def holds(self, x):
        return any(y[0] == "adt" and y[1] == KEY for y in subterms(x))

    def run(self, fn, table, *args, hooks=(), inst=None):
        bs = [b for b in self.F.mono() if b.name == FILE + "::" + fn and (inst is None or inst in b.id)]
        if len(bs) != 1:
            return None
        v, arr = self.file(table)
        I = Interp(self.F, hooks={**lists.HOOKS, **dict.fromkeys(iofx.STREAMER_DB, streamer), **dict(hooks)})
        I.literals = I.refusals = True
        st = State()
        st.store[("C", "it")] = v
        seq, r, st = I.run(bs[0], [("ref", ("C", "it"), ())] + list(args), st)
        return I, seq, r, st, bs[0], arr


def streamer(I, c):
    return ("adt", "std::result::Result", 0, (("sym", "streamer"),)), c.st


def failed(r):
    return r is not None and strip(r)[0] == "adt" and strip(r)[1].endswith("Result") and strip(r)[2] == 1


def dead(seq, out=None):
    """conditions that end the program"""
    out = [] if out is None else out
    for e in seq:
        if e[0] == "guard" and e[3] == "dead":
            out.append(e)
        elif e[0] == "alt":
            for x in e[2]:
                dead(x[1], out)
        elif e[0] == "loop":
            for x in e[2:]:
                if isinstance(x, (list, tuple)):
                    dead([y for y in x if isinstance(y, tuple)], out)
    return out


def check(ctx):
    X = Files(ctx)
    if X.why:
        ctx.open("keys: %s" % X.why)
    else:
        for tn, table in TABLES.items():
            ctx.attempt("get_tree, %s" % tn, find, ctx, X, tn, table)
            ctx.attempt("keys, %s" % tn, listed, ctx, X, tn, table)
            ctx.attempt("put, %s" % tn, put, ctx, X, tn, table)
        ctx.attempt("get_tree, class", refuse, ctx, X)
    for rule, n in (("find", 30), ("list", 8), ("put", 18), ("refuse", 1)):
        ctx.floor(rule, len([o for o in ctx.obl if o[0] == rule]), n)


def looked(X, table, q):
    """(numbers of the keys whose place in the file is looked at, whether another place is, the rest of the run)"""
    seen, other = set(), []

    def seek(I, c):
        v = I.deref_all(c.args[1], c.st)
        ks = {x[2] for x in subterms(v) if x[0] == "sym" and len(x) > 2 and x[1] == "key"}
        seen.update(ks)
        if len(ks) != 1:
            other.append(v)
        return NotImplemented
    r = X.run("get_tree", table, S(q), hooks={"std::io::Seek::seek": seek})
    return r and (seen, other) + r


def find(ctx, X, tn, table):
    asked = {}
    for n, c, _ in table:
        same = [k for k in table if k[0] == n]
        asked[n] = table.index(max(same, key=lambda k: k[1]))
        asked["%s;%d" % (n, c)] = table.index((n, c, [k[2] for k in same if k[1] == c][0]))
        asked.setdefault("%s;%d" % (n, max(k[1] for k in same) + 1), None)
        asked.setdefault("%s;%d;%d" % (n, c, c), None)
        asked.setdefault(n + "x", None)
        asked.setdefault(n[:-1], None)
        asked.setdefault("%s;x" % n, None)
    for q in ("t", "missing", "A", "tT"):
        asked.setdefault(q, None)
    for q, want in asked.items():
        r = looked(X, table, q)
        if r is None:
            return ctx.open("%s::get_tree is not found" % FILE)
        seen, other, I, seq, v, st, b, _ = r
        sub, w = "%s: %r" % (tn, q), rel(b.where())
        tell = lambda i: "no key" if i is None else "key %s;%d (number %d)" % (table[i][0], table[i][1], i + 1)
        if v is None and not seen:
            ctx.bad("find", sub, w, "get_tree(%r) ends the program" % q)
        elif want is None:
            if failed(v) and not seen:
                ctx.ok("find", sub, w, "get_tree(%r) is refused" % q)
            elif seen:
                ctx.bad("find", sub, w, "get_tree(%r) reads the object of %s, not of %s" % (q, ", ".join(map(tell, sorted(seen))), tell(want)))
            else:
                ctx.open("get_tree(%r) on the list %s: the answer is not known: %s" % (q, tn, show(v)[:80]))
        elif seen == {want} and not other and not failed(v):
            ctx.ok("find", sub, w, "get_tree(%r) reads the object of %s" % (q, tell(want)))
        elif seen - {want} or failed(v):
            ctx.bad("find", sub, w, "get_tree(%r) %s, not %s" % (q, "reads the object of " + ", ".join(map(tell, sorted(seen))) if seen else
                                                                  "is refused", tell(want)))
        else:
            ctx.open("get_tree(%r) on the list %s: what is read is not known: %s" % (q, tn, "; ".join(show(x)[:60] for x in other)))


def refuse(ctx, X):
    """an object that is no tree"""
    seen, other, I, seq, v, st, b, _ = looked(X, [("l", 1, "TList")], "l")
    bad = [g for g in dead(seq) if any(x[0] == "downcast" and "ReaderTree" in str(x[1]) for x in subterms(g[1]))]
    if v is None:
        return ctx.open("get_tree of an object that is no tree: no answer")
    ctx.ob("refuse", "RootFile::get_tree", rel(b.where()), not bad, "an object that is no tree is refused with an error" if not bad else
           "an object that is no tree ends the program instead of being refused")


def listed(ctx, X, tn, table):
    for fn in ("keys_name", "keys"):
        r = X.run(fn, table)
        if r is None:
            ctx.open("%s::%s is not found" % (FILE, fn))
            continue
        I, seq, v, st, b, arr = r
        v = I.deref_all(v, st)
        if v[0] == "iter":
            xs = lists.items(I, v, st.copy(), None)
            got = None if xs is None else [I.deref_all(x, xs[1]) for x in xs[0]]
        else:
            got = list(v[1]) if v[0] == "arr" else None
        want = [S(k[0]) for k in table] if fn == "keys_name" else list(arr[1])
        if got is None or fn == "keys_name" and any(x[0] != "s" for x in got):
            ctx.open("%s on the list %s: the answer is not known: %s" % (fn, tn, show(v)[:80]))
            continue
        ctx.ob("list", "%s: %s" % (tn, fn), rel(b.where()), got == want, "%s gives every key in order" % fn if got == want else
               "%s gives %s" % (fn, ", ".join(show(x)[:30] for x in got)))


def put(ctx, X, tn, table):
    names = sorted({k[0] for k in table if k[0]} | {"new", "a/b", "/", "t"})
    for q in names:
        written = []

        def marshal(I, c):
            v = I.deref_all(c.args[0], c.st)
            if v[0] == "adt" and v[1] == KEY:
                written.append(v)
            return ("adt", "std::result::Result", 0, (C(0),)), c.st

        def compress(I, c):
            return ("adt", "std::result::Result", 0, (("sym", "packed"),)), c.st
        r = X.run("put", table, S(q), ("p", "obj"), hooks={"oxyroot::rbytes::Marshaler::marshal": marshal,
                                                        "oxyroot::rcompress::compress": compress}, inst="WriterTree")
        if r is None:
            return ctx.open("%s::put of a WriterTree is not found" % FILE)
        I, seq, v, st, b, arr = r
        sub, w = "%s: %r" % (tn, q), rel(b.where())
        lst = X.keys_of(st) if st else None
        same = [k for k in table if k[0] == q]
        if "/" in q or any(k[2] != "TTree" for k in same):
            why = "its name contains a slash" if "/" in q else "a key of that name has another class"
            if failed(v) or v is None:
                ctx.ob("put", sub, w, failed(v), "put(%r) is refused (%s)" % (q, why) if failed(v) else "put(%r) ends the program" % q)
            elif lst is not None and lst != list(arr[1]):
                ctx.bad("put", sub, w, "put(%r) adds a key though %s" % (q, why))
            else:
                ctx.open("put(%r) on the list %s: whether it is refused is not known" % (q, tn))
            continue
        if failed(v) or v is None:
            ctx.bad("put", sub, w, "put(%r) %s" % (q, "is refused" if failed(v) else "ends the program"))
            continue
        if lst is None:
            ctx.open("put(%r) on the list %s: the list afterwards is not known" % (q, tn))
            continue
        cycle = max([k[1] for k in same], default=0) + 1
        want = {"name": S(q), "cycle": C(cycle), "class": S("TTree")}
        miss = None
        if len(lst) != len(table) + 1 or lst[:-1] != list(arr[1]):
            miss = "the keys afterwards are not those before and one more"
        elif any(strip(X.part(lst[-1], k)) != x for k, x in want.items()):
            miss = "the key added is %s" % ", ".join("%s %s" % (k, show(X.part(lst[-1], k))[:30]) for k in want)
        elif not written or any(strip(X.part(written[-1], k)) != strip(X.part(lst[-1], k)) for k in X.field):
            miss = "the header written has other contents than the key kept"
        ctx.ob("put", sub, w, miss is None, "put(%r) adds the key with cycle %d" % (q, cycle) if miss is None else
               "put(%r): %s (expected name %r, cycle %d, class 'TTree')" % (q, miss, q, cycle))
