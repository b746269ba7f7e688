"""What a function puts in the file: every positioned write with its bytes, its place and the end-of-file mark in force.

std::io::{Seek::seek, Write::write_all, Write::flush} become events; Marshaler::marshal appends one opaque chunk whose
length is the sum of the tokens of that marshaller's wire tree. Sums over lists are kept as sums."""
import re
from absint import Interp, AnalysisError, canon_cond, C, UNIT, ok, show, strip, subterms
import buf, logic, wire
from logic import fold, simp

STREAMER_DB = ("oxyroot::rdict::streamers::db::streamer_info", "oxyroot::rdict::streamers::db::streamer_info_from",
               "oxyroot::rdict::Visitor::run")
MARSHAL = "oxyroot::rbytes::Marshaler::marshal"
RF = "oxyroot::riofs::file::RootFile::"


def fields(t):
    out = []
    t = strip(t)
    while t[0] == "fld":
        out.append(t[2])
        t = strip(t[1])
    return tuple(reversed(out)), t


def getf(x, f):
    while x[0] in ("upd", "adt"):
        if x[0] == "upd":
            for k, v in x[2]:
                if k == f:
                    return v
            x = x[1]
            continue
        break
    if x[0] == "phi":
        return ("phi", x[1], tuple((l, getf(y, f)) for l, y in x[2]))
    return ("fld", x, f)


class IO:
    def __init__(self, F):
        self.F = F
        self.W = buf.Writer(F)
        self.why = self.W.why
        e = F.one(RF + "end")
        self.epath = None
        if e is not None:
            I = Interp(F)
            _, v, _ = I.run(e, [("p", "self")])
            p, r = fields(v)
            if r == ("p", "self"):
                self.epath = p
        if self.epath is None:
            self.why = "RootFile::end is not a field of the file"
        self.bufpath, _ = fields(self.W.P) if not self.why else ((), None)
        self.trees = {}
        self.curpath = None
        if not self.why:
            x = buf.run(F, buf.WB + "write_u8")
            for a, c in logic.linear(self.W.POS).items():
                if a is not None and c == 1 and x is not None and buf.project(a, x[4]) != a:
                    self.curpath, _ = fields(a)
        kl = F.one("oxyroot::riofs::key::Key::key_len")
        self.keylen = None
        if kl is not None:
            _, v, _ = Interp(F).run(kl, [("p", "self")])
            p, r = fields(v)
            if r == ("p", "self") and len(p) == 1:
                self.keylen = p[0]

    # ------------------------------------------------------------------ running
    def hooks(self, root):
        bp = self.bufpath

        def marsh(I, c):
            v = I.deref_all(c.args[0], c.st)
            x = c.args[1]
            for _ in range(6):
                nx = I.pick(I.load(c.st, x[1], x[2]), c.st)
                if nx[0] != "ref":
                    break
                x = nx
            st = c.st.copy()
            k = ("wire", c.name, v)
            b = I.load(st, x[1], x[2])
            self.append(I, st, x, k, c.site)
            c.seq.append(("io", "marshal", (c.name, v, b), None, c.site))
            return ok(("wlen", k)), st

        def io(kind):
            def f(I, c):
                a = tuple(I.deref_all(y, c.st) for y in c.args[1:])
                c.seq.append(("io", kind, a, self.file_state(I, c.st, root), c.site))
                return ok(UNIT), c.st
            return f
        def uuid_bytes(I, c):
            x = I.deref_all(c.args[0], c.st)
            return ("ref", ("H", ("repn", ("uuid", x), C(16))), ()), c.st
        h = {"<uuid::Uuid as std::convert::AsRef<[u8]>>::as_ref": uuid_bytes,
             "<uuid::Uuid as std::convert::AsRef<[u8; 16]>>::as_ref": uuid_bytes,
             MARSHAL: marsh, "std::io::Seek::seek": io("seek"), "std::io::Write::write_all": io("write"),
             "std::io::Write::flush": io("flush"), "std::io::Write::write": io("write-some")}
        return h

    def append(self, I, st, x, chunk, site):
        """the buffer x points at grows by one chunk"""
        old = I.load(st, x[1], x[2])
        new = self.setf(old, self.bufpath, lambda b: ("ext", b, chunk))
        if self.curpath:
            new = self.setf(new, self.curpath, lambda b: fold("Add", b, ("wlen", chunk)))
        I.store_to(st, x[1], x[2], new, site)

    def setf(self, v, path, fn):
        if not path:
            return fn(v)
        f = path[0]
        if v[0] == "phi":
            return ("phi", v[1], tuple((l, self.setf(y, path, fn)) for l, y in v[2]))
        if v[0] == "adt":
            a = self.F.adt_by_name.get(v[1])
            i = [z[0] for z in a["variants"][v[2]]["fields"]].index(f)
            fs = list(v[3])
            fs[i] = self.setf(fs[i], path[1:], fn)
            return ("adt", v[1], v[2], tuple(fs))
        if v[0] == "upd":
            d = dict(v[2])
            d[f] = self.setf(d.get(f, ("fld", v[1], f)), path[1:], fn)
            return ("upd", v[1], tuple(sorted(d.items(), key=repr)))
        return ("upd", v, ((f, self.setf(("fld", v, f), path[1:], fn)),))

    def file_state(self, I, st, root):
        if root is None:
            return None
        return st.store.get(("H", root), root)

    def end_of(self, fv):
        return self.field(fv, self.epath)

    def field(self, fv, path):
        v = fv
        for f in path:
            v = self.get(v, f)
        return v

    def get(self, v, f):
        if v[0] == "adt":
            a = self.F.adt_by_name.get(v[1])
            if a:
                names = [z[0] for z in a["variants"][v[2]]["fields"]]
                if f in names:
                    return v[3][names.index(f)]
        if v[0] == "upd":
            for k, x in v[2]:
                if k == f:
                    return x
            return self.get(v[1], f)
        if v[0] == "phi":
            return ("phi", v[1], tuple((l, self.get(y, f)) for l, y in v[2]))
        return ("fld", v, f)

    def run(self, body, args, root=None, opaque=STREAMER_DB, hooks=None, init=None):
        h = self.hooks(root)
        h.update(hooks or {})
        I = Interp(self.F, hooks=h, opaque=opaque)
        seq, v, st = I.run(body, args, init)
        I.top_seq = seq
        return I, seq, v, st

    # ------------------------------------------------------------------ lengths
    def length(self, I, v, memo=None):
        """number of bytes of a byte string term"""
        v = strip(v)
        k = v[0]
        if k == "ext":
            return fold("Add", self.length(I, v[1]), self.chunk(I, v[2]))
        if k == "push":
            return fold("Add", self.length(I, v[1]), C(1))
        if k == "phi":
            return ("phi", v[1], tuple((l, self.length(I, y)) for l, y in v[2]))
        if k in ("be", "le", "ne"):
            return C(v[1])
        if k == "wire":
            return self.wirelen(I, v[1], v[2])
        if k == "arr":
            return C(len(v[1]))
        if k == "call" and v[1].endswith("::new") and not v[2]:
            return C(0)
        p, r = (), v
        while r[0] == "fld":
            p = (r[2],) + p
            r = strip(r[1])
        if r[0] == "lv" and r in I.lvdefs:
            d = I.lvdefs[r]
            init, back = self.field(d["init"], p), self.field(d["back"], p)
            me = self.field(r, p)
            step = logic.lin_sub(self.length_rel(I, back, me), C(0))
            if step is not None:
                return fold("Add", self.length(I, init), self.summed(I, step, r[1][0]))
        return logic.length(v)

    def length_rel(self, I, v, base):
        """length of v less the length of base, when v is base with chunks appended"""
        v = strip(v)
        if v == strip(base):
            return C(0)
        if v[0] == "ext":
            a = self.length_rel(I, v[1], base)
            return None if a is None else fold("Add", a, self.chunk(I, v[2]))
        if v[0] == "upd" and all(isinstance(k, tuple) and k[0] in ("ss", "elem") for k, _ in v[2]):
            return self.length_rel(I, v[1], base)       # overwritten in place
        if v[0] == "push":
            a = self.length_rel(I, v[1], base)
            return None if a is None else fold("Add", a, C(1))
        if v[0] == "phi":
            arms = tuple((l, self.length_rel(I, y, base)) for l, y in v[2])
            return None if any(y is None for _, y in arms) else ("phi", v[1], arms)
        return ("top", "not an extension")

    def chunk(self, I, c):
        c0 = strip(c)
        if c0[0] in ("be", "le", "ne"):
            return C(c0[1])
        if c0[0] == "wire":
            return self.wirelen(I, c0[1], c0[2])
        return self.length(I, c0)

    def wirelen(self, I, name, val):
        """bytes a marshaller emits for a value"""
        val = strip(val)
        if name.startswith("<oxyroot::riofs::key::Key as ") and val[0] not in ("adt", "upd") and self.keylen:
            return ("fld", val, self.keylen)
        t = self.tree(name)
        if t is None:
            return ("wlen", ("wire", name, val))
        n = self.nodes_len(t[0], t[1])
        if n is None:
            return ("wlen", ("wire", name, val))
        return self.project(n, val)

    def tree(self, name):
        if name not in self.trees:
            b = self.F.one(name)
            if b is None:
                self.trees[name] = None
            else:
                I, wt, v, st = wire.run_writer(self.F, b)
                self.trees[name] = (I, wt)
        return self.trees[name]

    def nodes_len(self, I, nodes):
        out = C(0)
        for n in nodes:
            if n[0] == "guard":
                continue
            if n[0] == "alt":
                arms = tuple((l, self.nodes_len(I, s)) for l, s in n[2])
                if any(y is None for _, y in arms):
                    return None
                x = arms[0][1] if all(y == arms[0][1] for _, y in arms) else ("phi", n[1], arms)
            elif n[0] == "loop":
                b = self.nodes_len(I, n[3])
                if b is None:
                    return None
                c = wire.loop_count(I, n)
                if c is not None and b[0] == "c":
                    x = fold("Mul", c, b)
                else:
                    x = self.summed(I, b, None, c)
            elif n[0] == "ev":
                x = self.tok_len(n)
                if x is None:
                    return None
            else:
                return None
            out = fold("Add", out, x)
        return out

    def tok_len(self, n):
        k = n[2]
        if k == "prim":
            return C(wire.WIDTH[n[3]])
        if k == "arr":
            return fold("Mul", n[5], C(wire.WIDTH[n[3]]))
        if k == "str":
            ln = logic.length(n[3])
            if ln[0] == "c":
                return C(ln[1] + (5 if ln[1] > 254 else 1))
            return ("phi", ("bin", "Lt", C(254), ln), ((True, fold("Add", ln, C(5))), (False, fold("Add", ln, C(1)))))
        if k == "cstr":
            return fold("Add", logic.length(n[3]), C(1))
        if k == "hdr":
            return C(6)
        if k in ("endhdr", "inplace"):
            return C(0)
        if k == "nil":
            return C(4)
        return None

    def summed(self, I, step, lid=None, count=None):
        """sum of a per-element term over the list the element comes from"""
        if count is None and lid is not None:
            count = self.loop_count(I, lid)
        step = norm_elem(step)
        if step == C(0):
            return C(0)
        lin = logic.linear(step)
        out = C(0)
        for a, c in sorted(lin.items(), key=repr):
            if not c:
                continue
            if a is None and count is not None:
                out = fold("Add", out, fold("Mul", count, C(c)))
                continue
            t = ("sum", C(1) if a is None else a)
            if a is not None and a[0] == "phi":
                t = ("sum", a)
            out = fold("Add", out, t if c == 1 else ("bin", "Mul", t, C(c)))
        return out

    def loop_count(self, I, lid):
        n = self.loop_counts(I).get(lid)
        if n is None and lid[0] == "ext":
            n = wire.loop_count(I, ("loop", lid, ()))
        return n

    def loop_counts(self, I):
        """{loop id: number of iterations} of the counted loops of the run"""
        m = getattr(I, "_counts", None)
        if m is not None:
            return m
        m = I._counts = {}

        def conds(seq):
            for n in seq:
                if n[0] in ("alt", "guard"):
                    yield n[1]

        def walk(seq):
            for n in seq:
                if n[0] == "loop":
                    for c in conds(n[2]):
                        k = wire.loop_count(I, ("loop", n[1], [("exitif", c)]))
                        if k is not None:
                            m[n[1]] = k
                        break
                    walk(n[2])
                elif n[0] == "alt":
                    for _, s, _ in n[2]:
                        walk(s)
        walk(I.top_seq)
        return m

    def project(self, t, val):
        memo = {}

        def rec(t):
            if t == ("p", "self"):
                return val
            if not isinstance(t, tuple) or not t:
                return t
            m = memo.get(id(t))
            if m is not None and m[0] is t:
                return m[1]
            if t[0] == "fld":
                r = self.get(rec(t[1]), t[2])
            elif t[0] == "len":
                r = logic.length(rec(t[1]))
            elif t[0] == "bin":
                r = fold(t[1], rec(t[2]), rec(t[3]))
            elif t[0] == "cast":
                x = rec(t[2])
                r = x if x[0] == "c" else ("cast", t[1], x)
            else:
                r = tuple(rec(x) if isinstance(x, tuple) else x for x in t)
            memo[id(t)] = (t, r)
            return r
        return rec(t)

    def expand(self, I, t):
        """integer term with loop variables, lengths and announced lengths written out"""
        memo = {}

        def rec(t):
            if not isinstance(t, tuple) or not t:
                return t
            m = memo.get(id(t))
            if m is not None and m[0] is t:
                return m[1]
            k = t[0]
            if k == "wlen":
                r = self.wirelen(I, t[1][1], t[1][2]) if t[1][0] == "wire" else t
                r = rec(r) if r != t else t
            elif k == "len":
                r = self.length(I, t[1])
                r = rec(r) if r != t and strip(r) != strip(t) else t
            elif k == "lv" and t in I.lvdefs:
                d = I.lvdefs[t]
                back = d.get("back")
                r = t
                if back is not None and "init" in d:
                    lin = dict(logic.linear(back))
                    if lin.get(t) == 1:
                        step = unlinear({a: c for a, c in lin.items() if a != t})
                        if not any(x == t for x in subterms(step)):
                            r = fold("Add", rec(d["init"]), self.summed(I, rec(step), t[1][0]))
            elif k == "sum" and len(t) == 3:
                r = self.summed(I, rec(t[1]))
            elif k == "bin":
                r = fold(t[1], rec(t[2]), rec(t[3]))
            elif k == "cast":
                r = rec(t[2])
            elif k in ("pl",):
                r = rec(t[-1])
            elif k in ("p", "s", "c", "call", "elem"):
                r = t
            elif k == "fld":
                r = t
                root = t
                p = ()
                while root[0] == "fld":
                    p = (root[2],) + p
                    root = strip(root[1])
                if root[0] == "lv" and root in I.lvdefs and "init" in I.lvdefs[root]:
                    d = I.lvdefs[root]
                    init, back = self.field(d["init"], p), self.field(d["back"], p)
                    if back == t:
                        r = rec(init)
                    else:
                        lin = logic.linear(back)
                        if lin.get(t) == 1:
                            step = unlinear({a: c for a, c in lin.items() if a != t})
                            if not any(x == t for x in subterms(step)):
                                r = fold("Add", rec(init), self.summed(I, rec(step), root[1][0]))
            else:
                r = tuple(rec(x) if isinstance(x, tuple) else x for x in t)
            memo[id(t)] = (t, r)
            return r
        return rec(t)

    # ------------------------------------------------------------------ paths
    def paths(self, seq, limit=256):
        """[(events, assume)] for the paths that return normally; loops stay nested as ('loop', node, [paths])"""
        out = [((), {})]
        for n in seq:
            if n[0] == "io":
                out = [(e + (n,), a) for e, a in out]
            elif n[0] == "guard":
                out = [(e, assume(a, n[1], n[2], True)) for e, a in out]
            elif n[0] == "loop":
                sub = self.paths(n[2])
                if any(e for e, _ in sub):
                    out = [(e + (("loop", n, sub),), a) for e, a in out]
            elif n[0] == "alt":
                live = [(l, self.paths(s)) for l, s, f in n[2] if f not in ("err", "dead")]
                if not any(e for _, ps in live for e, _ in ps):
                    continue
                nxt = []
                for e, a in out:
                    for l, ps in live:
                        a2 = assume(a, n[1], l, False)
                        for e2, a3 in ps:
                            x = dict(a2)
                            x.update(a3)
                            nxt.append((e + e2, x))
                out = nxt
                if len(out) > limit:
                    raise AnalysisError("too many paths")
        return out


def unlinear(d):
    out = C(d.get(None, 0))
    for a, c in sorted(d.items(), key=repr):
        if a is not None and c:
            out = fold("Add", out, a if c == 1 else ("bin", "Mul", a, C(c)))
    return out


def assume(a, cond, label, negate):
    from absint import canon_cond
    a = dict(a)
    if isinstance(label, bool):
        k, pol = canon_cond(cond, True)
        if k[0] == "c":
            return a
        a[k] = (label != negate) == pol
    elif not negate:
        a[cond] = label
    return a


def norm_elem(t):
    """element terms of whatever loop become the element of a sum"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "elem" and len(t) == 3:
        return ("elem", norm_elem(t[1]), ("it",))
    return tuple(norm_elem(x) if isinstance(x, tuple) else x for x in t)


# ---------------------------------------------------------------------- cases and inequalities
NONNEG = ("len", "sum", "wlen", "count")


def nonneg(a):
    a = strip(a)
    if a[0] in NONNEG:
        return True
    if a[0] == "fld" and a[2] in NONNEG_FIELDS:
        return True
    return a[0] == "bin" and a[1] == "Mul" and all(nonneg(x) or (x[0] == "c" and x[1] >= 0) for x in a[2:4])


NONNEG_FIELDS = set()


def constraints(assume):
    """linear forms known to be >= 0"""
    out = []
    for cond, lab in assume.items():
        if not (isinstance(cond, tuple) and cond and cond[0] == "bin" and cond[1] in ("Lt", "Eq") and isinstance(lab, bool)):
            continue
        d = logic.linear(("bin", "Sub", cond[3], cond[2]))      # b - a
        d = {k: c for k, c in d.items() if c}
        if cond[1] == "Lt":
            if lab:
                d[None] = d.get(None, 0) - 1
                out.append(d)
            else:
                out.append({k: -c for k, c in d.items()})
        elif lab:
            out.append(d)
            out.append({k: -c for k, c in d.items()})
        elif len([k for k in d if k is not None]) == 1 and not d.get(None):
            k, c = [(k, c) for k, c in d.items() if k is not None][0]
            if nonneg(k):
                out.append({k: abs(c), None: -1})
    sums = {y[1] for cond in assume for y in subterms(cond) if y[0] == "count"}
    for t in sums:
        f = sum_floor(t)
        if f is not None:
            out.append(f)
    return out


def sum_floor(t):
    """a sum of positive terms is at least the length of the list"""
    lists = {y[1] for y in subterms(t[1]) if y[0] == "elem"}
    x = strip(t[1])
    leaves = [v for _, v in x[2]] if x[0] == "phi" else [x]
    if len(lists) != 1 or not all(strip(v)[0] == "c" for v in leaves):
        return None
    m = min(strip(v)[1] for v in leaves)
    return {("count", t): 1, logic.length(lists.pop()): -1} if m > 0 else None


def refuted(forms):
    """some sum of the forms (each >= 0) is negative: they cannot hold together"""
    def neg(d):
        return d.get(None, 0) < 0 and all(c <= 0 and nonneg(k) for k, c in d.items() if k is not None and c)
    n = len(forms)
    if any(neg(d) for d in forms):
        return True
    for i in range(n):
        for j in range(i + 1, n):
            s = add(forms[i], forms[j])
            if neg(s):
                return True
            for k in range(j + 1, n):
                if neg(add(s, forms[k])):
                    return True
    return False


def add(a, b):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + c
    return {k: c for k, c in d.items() if c or k is None}


def first_cond(t, memo=None):
    """(condition, labels) of a merge inside t whose condition holds no merge itself; sums are opaque"""
    if memo is None:
        memo = set()
    if not isinstance(t, tuple) or not t or id(t) in memo:
        return None
    memo.add(id(t))
    if t[0] == "sum":
        return None
    if t[0] == "phi":
        r = first_cond(t[1], memo)
        return r if r is not None else (t[1], [l for l, _ in t[2]])
    for x in t:
        if isinstance(x, tuple):
            r = first_cond(x, memo)
            if r is not None:
                return r
    return None


def hide_sums(t, back, memo):
    if not isinstance(t, tuple) or not t:
        return t
    m = memo.get(id(t))
    if m is not None and m[0] is t:
        return m[1]
    if t[0] == "sum":
        k = ("count", t)
        back[k] = t
        r = k
    else:
        r = tuple(hide_sums(x, back, memo) if isinstance(x, tuple) else x for x in t)
    memo[id(t)] = (t, r)
    return r


def cases(t, assume, depth=0):
    """[(term without merges, assume)] over every consistent combination of the conditions inside t"""
    from absint import canon_cond
    t = simp(t, None, assume)
    f = first_cond(t)
    if f is None or depth > 18:
        return [(t, assume)]
    c, labels = f
    out = []
    for l in labels:
        a2 = dict(assume)
        if isinstance(l, bool):
            k, pol = canon_cond(c, True)
            a2[k] = l == pol
            a2[c] = l
        else:
            a2[c] = l
        if refuted(constraints(a2)):
            continue
        out += cases(t, a2, depth + 1)
    return out


def always(kind, t, assume, extra=()):
    """None when `t kind 0` in every case (kind: 'eq' or 'ge'); else (case assumptions, residual form)"""
    memo, back = {}, {}
    assume = {hide_sums(k, back, memo): l for k, l in assume.items()}
    t = hide_sums(t, back, memo)
    r = None
    for u, a in cases(t, assume):
        r = holds(kind, u, constraints(a) + list(extra))
        if r is not None:
            r = (a, u)
            break
    if r is None:
        return None
    # again with the assumptions that hold merges split along with the term
    deep = {k: l for k, l in assume.items() if isinstance(l, bool) and first_cond(k) is not None}
    if not deep:
        return r
    flat = {k: l for k, l in assume.items() if k not in deep}
    ks = list(deep)
    for u, a in cases(("tup", t) + tuple(ks), flat):
        known = dict(a)
        dead = False
        for k, c in zip(ks, u[2:]):
            c2, pol = canon_cond(c, True)
            want = deep[k] == pol
            if c2[0] == "c":
                dead = dead or bool(c2[1]) != want
            elif known.get(c2, want) != want:
                dead = True
            else:
                known[c2] = want
        if dead:
            continue
        cons = constraints(known)
        if refuted(cons):
            continue
        if holds(kind, u[1], cons + list(extra)) is not None:
            return known, u[1]
    return None


def holds(kind, u, cons):
    d = {k: c for k, c in logic.linear(u).items() if c}
    if kind == "eq":
        if d:
            up = dict(d)
            up[None] = up.get(None, 0) - 1
            dn = {k: -c for k, c in d.items()}
            dn[None] = dn.get(None, 0) - 1
            if refuted(cons + [up]) and refuted(cons + [dn]):
                return None
            return d
        return None
    m = {k: -c for k, c in d.items()}
    m[None] = m.get(None, 0) - 1
    return None if refuted(cons + [m]) else d
