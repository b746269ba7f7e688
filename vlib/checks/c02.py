"""C02: what is written for a class is what the description embedded in the file says it is."""
import re
import c13, db, wire
from absint import C, show, strip
from c01 import bodies, fieldpath
from core import rel, site_where
from wire import kindclass

RULE = ("The wire tree of every marshaller (abstract interpretation of MIR) is matched, along every path, against a grammar "
        "built from the built-in description of the class: base classes as nested records, then every member in order with "
        "its type's width, arrays after their one-byte flag, pointers as object slots; containers, keys, baskets, directories, "
        "free segments and the I/O feature word against ROOT's hand-written streamers of these classes. Also: the version "
        "written is the version described, and a member is not written from the field that holds another member of the class.")
ASSUMPTIONS = ["C13: the built-in descriptions are ROOT's", "writers run on the classes' own layouts (no member-wise streaming)"]

BASIC = {1: "i1", 2: "i2", 3: "i4", 4: "i8", 5: "f4", 6: "i4", 7: "i1", 8: "f8", 11: "i1", 12: "i2", 13: "i4", 14: "i8",
         15: "i4", 16: "i8", 17: "i8", 18: "i1"}


def prim(kc, name=None, const=None):
    return ("prim", kc, name, const)


# ROOT's hand-written streamers (TObject, TCollection family, TKey, TFree, TDirectoryFile, TBasket, TIOFeatures)
TOBJECT = (prim("i2", None, 1), prim("i4", "fUniqueID"), prim("i4", "fBits"), ("opt", (prim("i2"),)))
SEEKS = lambda names: ("or", tuple(prim("i4", n) for n in names), tuple(prim("i8", n) for n in names))
TKEY = (prim("i4", "fNbytes"), prim("i2", "fVersion"), prim("i4", "fObjlen"), prim("i4", "fDatime"), prim("i2", "fKeylen"),
        prim("i2", "fCycle"), SEEKS(("fSeekKey", "fSeekPdir")), ("str", "fClassName"), ("str", "fName"), ("str", "fTitle"))
CUSTOM = {
    "TObject": TOBJECT,
    "TList": TOBJECT + (("str", "fName"), prim("i4"), ("star", (("objany", None), ("str", None)))),
    "TObjArray": TOBJECT + (("str", "fName"), prim("i4"), prim("i4", "fLowerBound"), ("star", (("objany", None),))),
    "TIOFeatures": (("opt", (("arr", "i1", 4),)), prim("i1", "fIOBits")),
    "TStreamerInfo": (("rec", "TNamed"), prim("i4", "fCheckSum"), prim("i4", "fClassVersion"), ("objptr", "fElements")),
    "TKey": TKEY,
    "TFree": (prim("i2"), ("or", (prim("i4", "fFirst"), prim("i4", "fLast")), (prim("i8", "fFirst"), prim("i8", "fLast")))),
    "TDirectoryFile": (prim("i2"), prim("i4", "fDatimeC"), prim("i4", "fDatimeM"), prim("i4", "fNbytesKeys"),
                       prim("i4", "fNbytesName"), SEEKS(("fSeekDir", "fSeekParent", "fSeekKeys")), prim("i2", None, 1),
                       ("arr", "i1", 16)),
    "TBasket": TKEY + (prim("i2"), prim("i4", "fBufferSize"), ("opt", (prim("i1"),)), prim("i4", "fNevBufSize"),
                       prim("i4", "fNevBuf"), prim("i4", "fLast"), prim("i1")),
}
ALIAS = {"ROOT::TIOFeatures": "TIOFeatures"}
# writers whose class has no header of its own
UNHEADED = {"oxyroot::riofs::key::Key": "TKey", "oxyroot::riofs::blocks::FreeSegments": "TFree",
            "oxyroot::riofs::dir::TDirectoryFile": "TDirectoryFile", "oxyroot::rtree::wbasket::WBasket": "TBasket",
            "oxyroot::rbase::object::Object": "TObject"}
HEADED = {"oxyroot::rcont::list::WriterList": "TList"}


class Spec:
    def __init__(self, ctx, F):
        self.F = F
        order, _, _ = c13.described(ctx, F)
        self.db = {n: (ver, v) for n, ver, v in order}
        self.len = {}
        for d, es in db.parse_dump():
            for e in es:
                self.len[(d["_name"], e["_name"])] = c13.num(e, "fArrayLength") or 0
        self.cache = {}

    def body(self, cls):
        """grammar items of a record's contents"""
        if cls in self.cache:
            return self.cache[cls]
        cls0 = ALIAS.get(cls, cls)
        if cls0 in CUSTOM:
            r = CUSTOM[cls0]
        elif cls in self.db:
            r = tuple(self.member(cls, e) for e in c13.elements(self.F, self.db[cls][1]))
            if any(x is None for x in r):
                r = None
        else:
            r = None
        self.cache[cls] = r
        return r

    def member(self, cls, e):
        k, n = c13.last(e[1]), db.const(db.find(self.F, e, "name"))
        t = c13.etype_code(self.F, e)
        if k == "StreamerBase":
            return ("rec", n)
        if k in ("StreamerObject", "StreamerObjectAny"):
            tn = db.const(db.find(self.F, e, "ename"))
            if tn in ("TArrayD", "TArrayI"):
                return ("cnt", "f8" if tn == "TArrayD" else "i4", n)
            return ("rec", tn)
        if k == "StreamerObjectPointer":
            return ("objptr", n)
        if k in ("StreamerString", "StreamerSTLstring"):
            return ("str", n)
        if k == "StreamerBasicPointer" and t and t > 40 and t - 40 in BASIC:
            return ("ptrarr", BASIC[t - 40], n)
        if k == "StreamerBasicType" and t:
            if t > 20 and t - 20 in BASIC:
                return ("arr", BASIC[t - 20], self.len.get((cls, n)))
            if t in BASIC:
                return prim(BASIC[t], n)
        return None

    def owners(self):
        """member name -> the sets of members of the records it is a direct member of"""
        out = {}
        bodies = list(self.cache.values()) + list(CUSTOM.values())
        for b in bodies:
            ms = frozenset(flat(b or ()))
            for m in ms:
                out.setdefault(m, set()).add(ms)
        return out

    def version(self, cls):
        for c in (cls,) + tuple(a for a, b in ALIAS.items() if b == cls):
            if c in self.db:
                return self.db[c][0]
        return None


def flat(items):
    for it in items:
        if it[0] == "prim" and it[2]:
            yield it[2]
        elif it[0] == "str" and it[1]:
            yield it[1]
        elif it[0] in ("opt", "star", "or"):
            for x in it[1:]:
                yield from flat(x)


# a state is a linked list of grammar items: (item, rest) or None
def push(items, rest):
    for it in reversed(items):
        rest = (it, rest)
    return rest


class Match:
    def __init__(self, spec):
        self.S = spec
        self.fields = []
        self.arrays = []        # (member, values, site) of the members written as arrays
        self.err = None
        self.unknown = None

    def closure(self, st, out, seen):
        if st in seen:
            return
        seen.add(st)
        if st is None:
            out.append(None)
            return
        it, rest = st
        if it[0] == "opt":
            self.closure(rest, out, seen)
            self.closure(push(it[1], rest), out, seen)
        elif it[0] == "star":
            self.closure(rest, out, seen)
            self.closure(push(it[1], st), out, seen)
        elif it[0] == "or":
            for alt in it[1:]:
                self.closure(push(alt, rest), out, seen)
        elif it[0] == "rec" and it[1] == "TObject":
            self.closure(push(TOBJECT, rest), out, seen)
        elif it[0] == "rec":
            out.append((("hdr", it[1]), rest))
        elif it[0] == "cnt":      # TArray: count, then values
            self.closure(push((prim("i4", it[2]), ("many", it[1], it[2])), rest), out, seen)
        elif it[0] == "ptrarr":   # flag byte, then the values
            self.closure(push((prim("i1"), ("many", it[1], it[2])), rest), out, seen)
        elif it[0] == "many":
            self.closure(rest, out, seen)
            out.append(st)
        else:
            out.append(st)

    def eps(self, states):
        out, seen = [], set()
        for s in states:
            self.closure(s, out, seen)
        return out

    def step(self, states, tok):
        nxt = set()
        for s in self.eps(states):
            if s is None:
                continue
            it, rest = s
            n = self.take(it, tok, s, rest)
            if n is not False:
                nxt.add(n)
        return nxt

    def take(self, it, tok, s, rest):
        k, t = it[0], tok[2]
        if t == "hdr":
            if k != "hdr":
                return False
            want = it[1]
            name = tok[3][1] if tok[3][0] == "s" else None
            if name is not None and ALIAS.get(name, name) != ALIAS.get(want, want):
                return False
            b = self.S.body(want)
            if b is None:
                self.unknown = want
                return False
            return push(b + (("end",),), rest)
        if t == "endhdr":
            return rest if k == "end" else False
        if t == "prim":
            kc = kindclass(tok[3])
            if k == "prim" and it[1] == kc:
                cv = strip(tok[4])
                if it[3] is not None and cv[0] == "c" and cv[1] != it[3]:
                    return False
                if it[2]:
                    self.fields.append((it[2], tok[4], tok[-1]))
                return rest
            if k == "many" and it[1] == kc:
                self.arrays.append((it[2], tok[4], tok[-1]))
                return s
            if k == "objptr" and kc == "i4" and strip(tok[4]) == C(0):
                return rest
            return False
        if t == "nil":
            if k == "objptr" or (k == "prim" and it[1] == "i4"):
                return rest
            return False
        if t == "objany":
            return rest if k in ("objptr", "objany") else False
        if t in ("str", "cstr"):
            if k == "str" and t == "str":
                if it[1]:
                    self.fields.append((it[1], tok[3], tok[-1]))
                return rest
            return False
        if t == "arr":
            kc = kindclass(tok[3])
            if k == "many" and it[1] == kc:
                self.arrays.append((it[2], tok[4], tok[-1]))
                return s
            if k == "arr" and it[1] == kc:
                n = strip(tok[5]) if len(tok) > 6 else None
                if n is not None and n[0] == "c" and it[2] and n[1] != it[2]:
                    return False
                return rest
            return False
        return False

    def walk(self, nodes, states):
        for n in nodes:
            if self.err or self.unknown or not states:
                return states
            if n[0] == "ev":
                if n[1] != "W" or n[2] in ("inplace", "seek"):
                    self.unknown = "token " + str(n[2])
                    return states
                nx = self.step(states, n)
                if self.unknown:
                    return states
                if not nx:
                    self.err = (n, sorted({show_item(s) for s in self.eps(states)}))
                    return states
                states = nx
            elif n[0] == "alt":
                out = set()
                for _, seq in n[2]:
                    out |= set(self.walk(seq, states))
                    if self.err or self.unknown:
                        return out
                states = out
            elif n[0] == "loop":
                cur = set(states)
                while True:
                    nx = self.walk(n[3], cur)
                    if self.err or self.unknown:
                        return cur
                    if set(nx) <= cur:
                        break
                    cur |= set(nx)
                    if len(cur) > 200:
                        self.unknown = "loop"
                        return cur
                states = cur
            elif n[0] == "guard":
                continue
            else:
                self.unknown = "node " + n[0]
                return states
        return states


def show_item(s):
    if s is None:
        return "end of record"
    it = s[0]
    return " ".join(str(x) for x in it if x is not None and not isinstance(x, tuple))


def show_tok(n):
    return " ".join(str(x) if not isinstance(x, tuple) else show(x)[:80] for x in n[2:-1])


def camel(n):
    """fTotBytes -> totbytes"""
    return re.sub(r"^f(?=[A-Z])", "", n).lower()


def plain(n):
    return n.replace("_", "").lower()


def check(ctx):
    F = ctx.facts()
    W, _ = bodies(F)
    spec = Spec(ctx, F)
    stat = {"rec": 0, "mem": 0}

    def one(w, wb):
        I, wt, wv, wst = wire.run_writer(F, wb)
        first = next((n for n in wt if n[0] == "ev"), None)
        where = rel(wb.where())
        for cls, ver in wire.headers(wt):
            name = cls[1] if cls[0] == "s" else None
            ver = strip(ver)
            if name is None or ver[0] != "c":
                continue
            want = spec.version(name)
            if want is None:
                ctx.open("%s: no description of %s" % (w, name))
                continue
            ctx.ob("version-described", "%s in %s" % (name, w), where, ver[1] == want,
                   "version %s is written, version %s is described" % (ver[1], want))
        if w in UNHEADED:
            start = push((("rec", "TObject"),) if UNHEADED[w] == "TObject" else CUSTOM[UNHEADED[w]], None)
            cls = UNHEADED[w]
        elif first is not None and first[2] == "hdr":
            cls = first[3][1] if first[3][0] == "s" else HEADED.get(w)
            if cls is None:
                ctx.open("%s: class of the record is computed" % w)
                return
            if spec.body(cls) is None:
                ctx.open("%s: no grammar for %s" % (w, cls))
                return
            start = push((("rec", cls),), None)
        else:
            if first is not None:
                ctx.open("%s: writes no record" % w)
            return
        M = Match(spec)
        end = M.walk(wt, {start})
        if M.unknown:
            ctx.open("%s: %s is not modelled" % (w, M.unknown))
            return
        if M.err:
            n, exp = M.err
            ctx.bad("conforms-to-description", w, site_where(n[-1]) or where,
                    "%s is written where the description of %s has %s" % (show_tok(n), cls, " / ".join(exp[:4])))
            return
        fin = M.eps(end)
        ctx.ob("conforms-to-description", w, where, None in fin or not end,
               "the record of %s ends before %s" % (cls, " / ".join(sorted({show_item(s) for s in fin})[:3])))
        stat["rec"] += 1
        owner = spec.owners()
        twice = {}
        for n, v, site in M.fields:
            fp = fieldpath(v)
            if fp:
                twice.setdefault(fp, {}).setdefault(n, site)
        for fp, ms in sorted(twice.items()):
            if len(ms) > 1:
                a, b = sorted(ms)[:2]
                ctx.bad("one-member-per-field", "%s.%s" % (w, ".".join(fp)), site_where(ms[b]) or where,
                        "members %s and %s of %s are both written from the field %s" % (a, b, cls, ".".join(fp)))
        for n, v, site in M.fields:
            names = {camel(m): m for c in owner.get(n, ()) for m in c}
            fp = fieldpath(v)       # copied as it is, not computed
            if not fp:
                continue
            f = plain(fp[-1])
            stat["mem"] += 1
            # written from the field named after a different member of the same record
            ctx.ob("member-from-its-own-field", "%s.%s" % (w, n), site_where(site) or where,
                   f == camel(n) or f not in names,
                   "member %s of %s is written from the field of member %s" % (n, cls, names.get(f)))
    for w, wb in sorted(W.items()):
        ctx.attempt("writer of " + w, one, w, wb)
    ctx.floor("records matched", stat["rec"], 34)
    ctx.floor("members traced to a field", stat["mem"], 85)
