"""C17: reading a branch hands out exactly the data of its baskets."""
import logic, members, models
from absint import C, CallCtx, ok, show, strip, subterms, UNIT
from core import rel, site_where
from facts import norm
from logic import fold
from readfx import Reads, Case, UNM, POS, at, lin, unlin

RULE = ("Branch::as_iter is interpreted abstractly and its iterator is driven one step, for TBranch and TBranchElement, for every kind of "
        "leaf, with and without compression, with and without an offset table, with and without a basket kept in the record of the tree. "
        "Every read of the file, every block decompressed and every entry decoded is a term over the record of the basket; the terms must "
        "be those of ROOT's layout of a basket.")
ASSUMPTIONS = ["the file is well formed, as ROOT 4 or later writes it", "names in keys are shorter than 255 bytes",
               "a branch has one leaf", "the decoders of flate2, xz2 and lz4 decode what they are given"]
Z = C(0)
BASKET = "oxyroot::rtree::basket::Basket"
LEAF = "oxyroot::rtree::leaf::Leaf"
BRANCH = "oxyroot::rtree::branch::Branch"
ALGS = {"zlib": (0x5a, 0x4c), "xz": (0x58, 0x5a), "lz4": (0x4c, 0x34)}
SEEK, BYTES, KLEN, OLEN, NB, SK, LAST, NEV = [("p", n) for n in (
    "fBasketSeek[i]", "fBasketBytes[i]", "fKeylen", "fObjlen", "fNbytes", "fSeekKey", "fLast", "fNevBuf")]


def strs(F, ti):
    return F.tstr(ti) or ""


class Roles:
    """which field of a decoded basket holds which number of its record"""

    def __init__(self, ctx, F, R):
        self.why = None
        bs = [b for b in F.bodies.values() if b.name.startswith("<" + BASKET + " as ") and b.name.endswith("Unmarshaler>::unmarshal")]
        if len(bs) != 1:
            self.why = "the decoding of a basket was not found"
            return
        from absint import State
        st = State()
        io = R.io
        r = ("p", "r")
        b0 = io.setf(r, R.ppath, lambda z: ("file", ("p", "place"), ("p", "size")))
        b0 = io.setf(b0, R.epath, lambda z: Z)
        st.store[("H", r)] = b0
        I, seq, v, st = R.run(bs[0], [("ref", ("H", ("p", "basket")), ()), ("ref", ("H", r), ())], init=st)
        P = ("p", "place")
        self.body = bs[0]
        val = st.store.get(("H", ("p", "basket")))
        iv = {at(P, 4, 2): (2, 9), at(P, 0, 4): (26, None)}
        extra = lambda a: (0, 254) if a[0] == "at" and a[2] == 1 else None      # noqa: E731
        cs = Case(io, iv, extra=extra)
        # what follows the key: buffer size, size of an entry, number of entries, last, flag
        groups = {}
        for t in [val] + [n[1] for n in walk_alts(seq)]:
            for y in subterms(cs.x(t)):
                if y[0] == "at" and any(k is not None and k != P for k, _ in y[1]):
                    d = dict(y[1])
                    groups.setdefault(tuple(x for x in y[1] if x[0] is not None), set()).add((d.get(None, 0), y[2]))
        at4 = sorted({(g, o) for g, v in groups.items() for o, w in v if all((o + d, x) in v for d, x in ((0, 4), (4, 4), (8, 4), (12, 4), (16, 1)))}, key=repr)
        if len(at4) == 1:
            g, o = at4[0]
            e = unlin(g + ((None, o),))
            iv[at(e, 16, 1)] = (0, 0)
            want = {"nev_buf": at(e, 8, 4), "last": at(e, 12, 4)}
        else:
            want = {}
        cs = Case(io, iv, extra=extra)
        cells = {}

        def rec(x, path):
            x = strip(x)
            if x[0] == "phi":
                x = strip(cs.x(x))
            if x[0] == "upd" and len(path) < 4:
                for k, y in x[2]:
                    if isinstance(k, str):
                        rec(y, path + (k,))
                return
            cells.setdefault(strip(cs.x(x)), []).append(path)
        rec(val, ())
        want.update({n: at(P, o, w) for n, (o, w) in dict(n_bytes=(0, 4), obj_len=(6, 4), key_len=(14, 2), seek_key=(18, 4)).items()})
        self.path = {n: cells[c][0] for n, c in want.items() if c in cells}
        self.missing = [k for k in ("n_bytes", "obj_len", "key_len", "seek_key", "nev_buf", "last") if k not in self.path]
        self.cells = cells


def walk_alts(seq):
    for n in seq:
        if n[0] == "alt":
            yield n
            for _, s, _ in n[2]:
                yield from walk_alts(s)
        elif n[0] == "guard":
            yield n
        elif n[0] == "loop":
            yield from walk_alts(n[2])


def variants(F):
    a = F.adt_by_name.get(LEAF)
    return [v["name"] for v in a["variants"]] if a else []


def typed(F, name, ty):
    """the only field of a struct with a type"""
    a = F.adt_by_name.get(name)
    hit = [f for f, t in a["variants"][0]["fields"] if norm(F.tstr(t) or "").endswith(ty)] if a else []
    return hit[0] if len(hit) == 1 else None


class Run:
    """one run of as_iter and one step of its iterator"""

    def __init__(self, A, leaf, emb, comp, table):
        self.A, self.leaf, self.emb, self.comp, self.table = A, leaf, emb, comp, table
        F, R, io = A.F, A.R, A.R.io
        self.mem = {}
        key = fold("Add", OLEN, KLEN)
        kv = {"key_len": KLEN, "obj_len": OLEN, "seek_key": SK, "n_bytes": NB if comp else key, "nev_buf": NEV, "last": LAST if table else key}
        bk = ("p", "basket")
        for n, p in A.ro.path.items():
            bk = io.setf(bk, p, lambda z, n=n: kv[n])
        self.basket = bk
        iv = {KLEN: (26, 32767), OLEN: (1, None), NB: (27, None), SK: (64, None), NEV: (1, None), LAST: (27, None)}
        facts = []
        if comp:
            facts.append(fold("Sub", OLEN, fold("Add", fold("Sub", NB, KLEN), C(1))))
        if table:
            facts.append(fold("Sub", OLEN, fold("Add", fold("Sub", LAST, KLEN), C(4))))
        self.cs = Case(io, iv, facts)
        tb = ("p", "branch")
        arr = lambda *x: ("arr", x)                     # noqa: E731
        self.eb = ("p", "kept basket")
        names = A.names
        lv = ("adt", LEAF, variants(F).index(leaf), (("p", "leaf"),))
        for f, v in ((names["branches"], arr()), (names["baskets"], arr(self.eb) if emb else arr()), (names["leaves"], arr(lv))):
            tb = io.setf(tb, (f,), lambda z, v=v: v)
        self.element = leaf == "Element"
        if self.element:
            tb = io.setf(("p", "element"), (names["branch"],), lambda z: tb)
        me = ("adt", BRANCH, 1 if self.element else 0, (tb,))
        hooks = self.hooks()
        self.I, self.seq, self.v, self.st = R.run(A.body, [me], hooks)
        self.seq2 = []
        it = self.v
        self.why = None
        if it is None:
            self.why = "refused"
            return
        for _ in range(20):
            if it[0] == "phi":
                c = self.cs.x(it[1])
                lab = self.cs.choose(c)
                x = logic.pick_arm(it[2], lab) if lab is not None else None
                if x is None:
                    good = [y for _, y in it[2] if y[0] != "adt" or y[2] == 0]
                    if len(good) != 1:
                        self.why = "which iterator is handed out depends on %s" % show(c)[:200]
                        return
                    x = good[0]
                it = x
            elif it[0] == "adt" and len(it[3]) == 1:
                it = it[3][0]
            elif it[0] == "dyn":
                it = it[3]
            else:
                break
        if it[0] != "iter":
            self.why = "the iterator handed out was not identified: %s" % show(it)[:200]
            return
        self.why = None
        self.it = it
        self.I.filters = []
        c = CallCtx({}, "drive", "std::iter::Iterator::for_each", [it], self.st, self.seq2, (A.body, 0), None, None)
        models.drive(self.I, c, it, lambda e, s, q: (e, s))

    def hooks(self):
        A = self.A
        R = A.R
        h0 = R.hooks()

        def unm(I, c):
            if BASKET not in c.name:
                return h0[UNM](I, c)
            x = R.target(I, c.args[1], c.st)
            y = c.args[0]
            if x[0] != "ref" or y[0] != "ref":
                return NotImplemented
            st = c.st.copy()
            B = I.load(st, x[1], x[2])
            I.store_to(st, y[1], y[2], self.basket, c.site)
            c.seq.append(("io", "basket", (I.deref_all(R.io.field(B, R.ppath), st), R.io.field(B, R.epath)), None, c.site))
            return ok(UNIT), st

        def keep(I, v, st, n=0):
            """what the memory behind a slice holds"""
            v = strip(v)
            if n > 8:
                return
            if v[0] == "subslice":
                keep(I, v[1], st, n + 1)
            elif v[0] == "lv":
                keep(I, I.lvdefs.get(v, {}).get("init", UNIT), st, n + 1)
            elif v[0] == "ref":
                if v[1][0] == "H":
                    keep(I, v[1][1], st, n + 1)
                else:
                    p = tuple(e for e in v[2] if e == "*" or e[0] != "ss")
                    self.mem.setdefault((v[1], p), I.deref_all(("ref", v[1], p), st))

        def innermost(I, a, st):
            """the last reference of a chain of references"""
            for _ in range(8):
                if a[0] != "ref":
                    return a
                nx = I.pick(I.load(st, a[1], a[2]), st)
                if nx[0] != "ref":
                    return a
                a = nx
            return a

        def read(I, c):
            src = strip(I.deref_all(c.args[0], c.st))
            dst = innermost(I, c.args[1], c.st)
            if src[0] == "decoder":
                keep(I, src[2], c.st)
                keep(I, dst, c.st)
                st = c.st.copy()
                if dst[0] == "ref":
                    I.store_to(st, dst[1], dst[2], ("decoded", src[1], src[2]), c.site)
                c.seq.append(("io", "decode", (("alg", src[1]), src[2], dst), None, c.site))
                return ok(UNIT), st
            from readfx import is_file
            if is_file(A.F, I, c):
                return h0["std::io::Read::read_exact"](I, c)
            # a slice is read like a file: what was read leaves it
            a = c.args[0]
            for _ in range(8):
                if a[0] != "ref":
                    return NotImplemented
                nx = I.pick(I.load(c.st, a[1], a[2]), c.st)
                if nx[0] != "ref" or I.pick(I.load(c.st, nx[1], nx[2]), c.st)[0] != "ref":
                    break
                a = nx
            cur = I.pick(I.load(c.st, a[1], a[2]), c.st)
            keep(I, cur, c.st)
            v = cur if cur[0] in ("ref", "lv", "subslice") else src
            n = logic.length(I.load(c.st, dst[1], dst[2])) if dst[0] == "ref" else ("top", "length")
            if dst[0] != "ref":
                return NotImplemented
            st = c.st.copy()
            I.store_to(st, dst[1], dst[2], ("subslice", v, "Range", (Z, n)), c.site)
            I.store_to(st, a[1], a[2], ("subslice", v, "RangeFrom", (n,)), c.site)
            c.seq.append(("io", "header", (v, n), None, c.site))
            return ok(UNIT), st

        def decoder(alg):
            def f(I, c):
                a = innermost(I, c.args[0], c.st)
                v = strip(a) if a[0] != "ref" else a
                if a[0] == "ref":
                    x = I.pick(I.load(c.st, a[1], a[2]), c.st)
                    if x[0] in ("subslice", "lv"):
                        v = x
                keep(I, v, c.st)
                return ("decoder", alg, v), c.st
            return f

        def lz4(I, c):
            a, dst = innermost(I, c.args[0], c.st), innermost(I, c.args[2], c.st)
            keep(I, a, c.st)
            keep(I, dst, c.st)
            st = c.st.copy()
            if dst[0] == "ref":
                I.store_to(st, dst[1], dst[2], ("decoded", "lz4", a), c.site)
            c.seq.append(("io", "decode", (("alg", "lz4"), a, dst), None, c.site))
            return ok(UNIT), st
        h = {UNM: unm, "std::io::Read::read_exact": read, "lz4::block::decompress_to_buffer": lz4}
        for n in ("flate2::read::ZlibDecoder::new", "flate2::bufread::ZlibDecoder::new", "flate2::zlib::read::ZlibDecoder::new"):
            h[n] = decoder("zlib")
        for n in ("xz2::read::XzDecoder::new", "xz2::bufread::XzDecoder::new"):
            h[n] = decoder("xz")
        return h


class Analysis:
    def __init__(self, ctx, F, R):
        self.ctx, self.F, self.R = ctx, F, R
        self.why = None
        self.ro = Roles(ctx, F, R)
        if self.ro.why:
            self.why = self.ro.why
            return
        M = members.Members(ctx, ctx.facts(), "TBranch")
        if M.why:
            self.why = M.why
            return
        tn, en = "oxyroot::rtree::branch::tbranch::TBranch", None
        tn = M.struct
        a = F.adt_by_name.get(BRANCH)
        if a is None or len(a["variants"]) != 2:
            self.why = "Branch is not one of two kinds"
            return
        et = norm(F.tstr(a["variants"][1]["fields"][0][1]))
        self.names = {"branches": typed(F, tn, "Vec<oxyroot::rtree::branch::Branch>"), "baskets": typed(F, tn, "Vec<%s>" % BASKET),
                      "leaves": typed(F, tn, "Vec<%s>" % LEAF), "branch": typed(F, et, tn.rsplit("::", 1)[1])}
        for m in ("fBasketSeek", "fBasketBytes"):
            h = M.home(m)
            self.names[m] = h[2] if h is not None and h[0] == "fld" else None
        e = M.fields.get("fEntries")
        self.names["fEntries"] = strip(e)[2] if e is not None and strip(e)[0] == "fld" else None
        miss = [k for k, v in self.names.items() if v is None]
        if miss:
            self.why = "fields of TBranch not identified: %s" % ", ".join(miss)
            return
        bs = [b for b in F.bodies.values() if b.name == BRANCH + "::as_iter" and b.argc == 1 and "as_iterdE" in b.id]
        if len(bs) != 1:
            self.why = "Branch::as_iter::<f64> not found"
            return
        self.body = bs[0]


class Open(Exception):
    pass


def lin_add(*xs):
    d = {}
    for c, x in xs:
        for k, v in x.items():
            d[k] = d.get(k, 0) + c * v
    return {k: v for k, v in d.items() if v}


def key(d):
    return tuple(sorted(d.items(), key=repr))


def spell(d):
    out = []
    for k, v in sorted(d.items(), key=repr):
        n = str(v) if k is None else word(k) if v == 1 else "%d*%s" % (v, word(k))
        out.append(n)
    return " + ".join(out) or "0"


def word(a):
    if a[0] == "le" or a[0] == "be":
        return "%s%d[%s at %s]" % (a[0], 8 * a[3], a[1], spell(dict(a[2])))
    if a[0] == "byte":
        return "byte[%s at %s]" % (a[1], spell(dict(a[2])))
    if a[0] == "p" or a[0] == "n":
        return a[1]
    if a[0] == "it":
        return "k"
    return show(a)[:80]


DONE, USED, IT = ("n", "done"), ("n", "used"), ("it",)
L = lambda a, c=1: {a: c}               # noqa: E731


class Terms:
    """places in memory and numbers, of the terms of one run"""

    def __init__(self, r):
        self.r, self.I, self.cs = r, r.I, r.cs
        self.role = {}              # loop-carried value -> linear form
        self.stack = set()
        self.sizer = lambda v: None
        self.lvs = {}
        for k, d in r.I.lvdefs.items():
            self.lvs[k] = self.lvs[self.cs.x(k)] = d

    def pushes(self, v):
        """(definition, value pushed) of a vector a loop fills from nothing"""
        d = self.lvs.get(v)
        if d is None or d.get("init") != ("arr", ()):
            return None
        b = d.get("back")
        if b is None or b[0] != "push" or self.cs.x(b[1]) != self.cs.x(v):
            return None
        return self.cs.x(b[2])

    # what a piece of memory is
    def root(self, v):
        r = self.r
        x = strip(self.cs.x(v))
        if x[0] == "upd" or x[0] == "lv" or x[0] == "decoded":
            y = x
            for _ in range(8):
                if y[0] == "upd":
                    y = y[1]
                elif y[0] == "lv":
                    y = strip(self.cs.x(self.lvs.get(y, {}).get("init", UNIT)))
                else:
                    break
            if y[0] == "repn" and r.comp and y != x:
                return "payload", L(None, 0), self.num(y[2])
        if x[0] == "repn" and r.comp:
            return "buffer", {}, self.num(x[2])
        l = self.cs.loc(x) if x[0] in ("file", "subslice") else None
        if l is not None and not r.comp and l[0] == fold("Add", SK, KLEN) and l[1] == OLEN:
            return "payload", {}, L(OLEN)
        if x[0] == "file":
            p = self.num(x[1])
            n = self.num(x[2])
            if p == lin_add((1, L(SK)), (1, L(KLEN))):
                if not r.comp:
                    return "payload", {}, n
                return "stored", {}, n
            return "file", p, n
        return None

    def place(self, v):
        """(what, offset, length or None) of a slice"""
        if not isinstance(v, tuple) or not v:
            return None
        v = strip(v) if v[0] != "ref" else v
        k = v[0]
        if k == "ref":
            if v[1][0] == "H" and not v[2]:
                return self.place(v[1][1])
            p = tuple(e for e in v[2] if e == "*" or e[0] != "ss")
            m = self.r.mem.get((v[1], p))
            if m is None:
                return None
            b = self.place(m)
            for e in v[2]:
                if b is None:
                    return None
                if e != "*" and e[0] == "ss":
                    b = self.cut(b, e[1], e[2])
            return b
        if k == "subslice":
            return self.cut(self.place(v[1]), v[2], v[3])
        if k == "proj" and isinstance(v[2], tuple) and v[2] and v[2][0] == "ss":
            return self.cut(self.place(v[1]), v[2][1], v[2][2])
        if k == "proj" and v[2] == "*":
            return self.place(v[1])
        if k in ("to_vec", "clone") and len(v) == 2:
            return self.place(v[1])
        if k == "lv":
            d = self.lvs.get(v)
            if d is None or d.get("back") is None:
                return None
            i = strip(d["init"]) if d["init"][0] != "ref" else d["init"]
            if i[0] in ("ref", "subslice", "lv", "file"):
                b = self.place(d["init"])
                if b is None:
                    return None
                if v not in self.role:
                    if v in self.stack:
                        return b[0], {("carry", v): 1}, None
                    self.stack.add(v)
                    me = ("carry", v)
                    try:
                        n = self.place(self.cs.x(d["back"]))
                        if n is None or n[0] != b[0]:
                            raise Open("a slice carried around a loop was not followed")
                        self.settle(v, b[1], lin_add((1, n[1]), (-1, L(me))), True)
                    finally:
                        self.stack.discard(v)
                o = self.role[v]
                return b[0], o, None if b[2] is None else lin_add((1, b[2]), (1, b[1]), (-1, o))
        return self.root(v)

    def cut(self, b, kind, a):
        if b is None:
            return None
        w, o, n = b
        a = [self.num(x) for x in a]
        if kind == "Range":
            return w, lin_add((1, o), (1, a[0])), lin_add((1, a[1]), (-1, a[0]))
        if kind == "RangeFrom":
            return w, lin_add((1, o), (1, a[0])), None if n is None else lin_add((1, n), (-1, a[0]))
        if kind == "RangeTo":
            return w, o, a[0]
        if kind == "RangeFull":
            return b
        raise Open("a slice with bounds %s" % kind)

    def settle(self, v, init, delta, slice_=False):
        """gives a value carried around a loop its meaning"""
        cs = [k for k in delta if k is not None and k[0] == "le"]
        base = None
        for k in cs:
            o = dict(k[2])
            for kk in o:
                if kk is not None and (kk[0] == "carry" or kk == USED) and k[1] == "stored":
                    base = kk
        if not delta:
            self.role[v] = init
            return
        if base is not None:
            rest = {base: 1}
            src = ("le", "stored", key(lin_add((1, rest), (1, L(None, 3)))), 3)
            tgt = ("le", "stored", key(lin_add((1, rest), (1, L(None, 6)))), 3)
            if delta == lin_add((1, L(src)), (1, L(None, 9))):
                self.role[v] = lin_add((1, init), (1, L(USED)))
                return
            if delta == L(tgt):
                self.role[v] = lin_add((1, init), (1, L(DONE)))
                return
        self.role[v] = {("lv", show(v)[:40]): 1}
        if all(k is None or (k[0] == "le" and k[1] == "stored") for k in delta) and (slice_ or cs):
            self.odd = (v, delta)

    def num(self, t):
        """a number as a linear form"""
        if isinstance(t, tuple) and t and t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool):
            return L(None, t[1]) if t[1] else {}
        t = self.cs.x(t)
        d = {}
        for a, c in self.terms(t):
            d = lin_add((1, d), (c, a))
        return self.bytes_of(d)

    def terms(self, t):
        t = strip(t)
        k = t[0]
        if k == "c":
            yield ({None: t[1]} if t[1] else {}), 1
        elif k == "bin" and t[1] in ("Add", "Sub"):
            yield self.num(t[2]), 1
            yield self.num(t[3]), 1 if t[1] == "Add" else -1
        elif k == "bin" and t[1] in ("BitOr", "BitXor"):
            # pieces of different weight only
            a, b = self.num(t[2]), self.num(t[3])
            for x in list(a) + list(b):
                if x is None or x[0] not in ("byte", "le", "sext"):
                    yield {("n", show(t)[:60]): 1}, 1
                    return
            yield a, 1
            yield b, 1
        elif k == "bin" and t[1] in ("Shl", "Mul"):
            a, b = self.num(t[2]), self.num(t[3])
            if set(b) <= {None}:
                n = b.get(None, 0)
                yield a, (1 << n) if t[1] == "Shl" else n
            elif t[1] == "Mul" and set(a) <= {None}:
                yield b, a.get(None, 0)
            else:
                yield {("n", show(t)[:60]): 1}, 1
        elif k == "cast":
            yield self.num(t[2]), 1
        elif k == "sext":
            yield {("sext", key(self.num(t[1]))): 1}, 1
        elif k in ("from_be", "from_le"):
            b = self.place(t[2])
            if b is None and t[2][0] == "arr" and len(t[2][1]) == t[1]:
                a = t[2][1] if k == "from_le" else t[2][1][::-1]
                for i, x in enumerate(a):
                    yield self.num(x), 256 ** i
                return
            if b is None:
                yield {("n", show(t)[:60]): 1}, 1
            else:
                yield {(k[-2:], b[0], key(b[1]), t[1]): 1}, 1
        elif k == "at":
            p = lin_add((-1, L(SK)), (-1, L(KLEN)), *[(c, L(None) if a is None else self.num(a)) for a, c in t[1]])
            yield {("be", "payload" if not self.r.comp else "stored", key(p), t[2]): 1}, 1
        elif k == "elem":
            x = self.element(t[1], t[2])
            yield x if x is not None else {("elem", strip(t[1]), t[2]): 1}, 1
        elif k == "count":
            n = self.sizer(t[1])
            yield {t: 1} if n is None else n, 1
        elif k == "len":
            x = t[1]
            b = self.place(x)
            if b is not None and b[2] is not None:
                yield b[2], 1
                return
            if x[0] == "lv":
                d = self.lvs.get(x)
                if d is not None:
                    n = logic.length(d["init"])
                    if n[0] == "c" and d.get("back") is not None and d["back"][0] != "push":
                        yield {None: n[1]}, 1
                        return
            n = self.sizer(x)
            yield {t: 1} if n is None else n, 1
        elif k == "lv":
            d = self.lvs.get(t)
            if t in self.role:
                yield self.role[t], 1
            elif d is None or d.get("back") is None or t in self.stack:
                yield {("carry", t): 1}, 1
            else:
                self.stack.add(t)
                try:
                    n = self.num(d["back"])
                finally:
                    self.stack.discard(t)
                if n.get(("carry", t)) == 1:
                    self.settle(t, self.num(d["init"]), lin_add((1, n), (-1, L(("carry", t)))))
                    yield self.role[t], 1
                else:
                    yield {("carry", t): 1}, 1
        else:
            yield {t: 1}, 1

    def element(self, v, i):
        """element of a vector, a linear form"""
        v = strip(v)
        i = strip(i)
        b = self.place(v) if v[0] in ("subslice", "ref", "lv", "file", "proj") else None
        if b is None and v[0] == "upd" and v[1][0] in ("repn",):
            b = self.place(v)
        if b is not None:
            return {("byte", b[0], key(lin_add((1, b[1]), (1, self.num(i)))), 1): 1}
        if v[0] == "upd":
            for k, x in v[2]:
                if k[0] != "elem":
                    return None
                if self.num(k[1]) == self.num(i):
                    return self.num(x)
                d = lin_add((1, self.num(i)), (-1, self.num(k[1])))
                if set(d) <= {None}:
                    continue
                if not self.inner(k[1], v[1]):
                    return None
            return self.element(v[1], i)
        if v[0] == "lv":
            x = self.pushes(v)
            return None if x is None else self.num(models.at_index(x, i))
        if v[0] == "coll":
            return self.num(models.at_index(v[1], i))
        return None

    def inner(self, j, v):
        """whether an element written is the last one: the others are asked for here"""
        n = self.sizer(v) or L(("len", strip(v)))
        return lin_add((1, self.num(j)), (-1, n)) == {None: -1}

    # formulas on samples
    def value(self, t, env):
        t = strip(self.cs.x(t))
        if t[0] == "c":
            return t[1]
        if t[0] == "un" and t[1] == "Not":
            a = self.value(t[2], env)
            return None if a is None else not a
        if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            a, b = self.value(t[2], env), self.value(t[3], env)
            if a is None or b is None:
                return None
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[t[1]]
        if t[0] == "bin" and t[1] in ("BitAnd", "BitOr"):
            a, b = self.value(t[2], env), self.value(t[3], env)
            if isinstance(a, bool) and isinstance(b, bool):
                return (a and b) if t[1] == "BitAnd" else (a or b)
        if t[0] == "phi":
            c = self.value(t[1], env)
            x = logic.pick_arm(t[2], c) if c is not None else None
            return None if x is None else self.value(x, env)
        if t[0] in ("s", "phi", "arr", "adt"):
            return None
        if t[0] == "bin" and t[1] in ("Div", "Rem", "Mul"):
            a, b = self.value(t[2], env), self.value(t[3], env)
            if a is None or b is None or (not b and t[1] != "Mul"):
                return None
            return a // b if t[1] == "Div" else a % b if t[1] == "Rem" else a * b
        n = self.num(t)
        out = n.get(None, 0)
        for a, c in n.items():
            if a is None:
                continue
            x = env(a)
            if x is None:
                return None
            out += c * x
        return out

    def bytes_of(self, d):
        """bytes that make up a little- or big-endian number are joined"""
        def join():
            ps = [(a, c) for a, c in d.items() if a is not None and a[0] in ("byte", "le", "be")]
            for a, c in ps:
                for b, e in ps:
                    if a is b or a[1] != b[1] or key(lin_add((1, dict(a[2])), (1, L(None, a[3])))) != b[2]:
                        continue
                    for kind, good in (("le", e == c * 256 ** a[3]), ("be", c == e * 256 ** b[3])):
                        if good and a[0] in ("byte", kind) and b[0] in ("byte", kind):
                            r = {k: v for k, v in d.items() if k != a and k != b}
                            r[(kind, a[1], a[2], a[3] + b[3])] = c if kind == "le" else e
                            return r
            return None
        for _ in range(8):
            r = join()
            if r is None:
                break
            d = r
        return d


class Judge:
    def __init__(self, ctx, r, label):
        self.ctx, self.r, self.label = ctx, r, label
        self.T = Terms(r)
        self.T.sizer = self.size_of
        self.evs = list(r.cs.walk(r.seq2))
        self.n = 0

    def where(self, site):
        return site_where(site) if site is not None else self.r.A.body.where()

    def need(self, rule, good, site, what):
        self.n += 1
        self.ctx.ob(rule, self.label, self.where(site), good, what)

    def open(self, what):
        self.ctx.open("%s: %s" % (self.label, what))

    def num(self, t):
        return self.T.num(t)

    def run(self):
        for f in (self.spine, self.places, self.blocks, self.entries):
            try:
                f()
            except Open as e:
                self.open(str(e))

    def know(self, d):
        """whether a linear form consists of things with a meaning"""
        return all(a is None or a in (DONE, USED, IT, KLEN, OLEN, NB, SK, LAST, NEV) or a[0] == "revd"
                   or (a[0] in ("le", "be", "byte") and self.know(dict(a[2])))
                   or (a[0] == "sext" and self.know(dict(a[1])))
                   or a == self.seek or a == self.size for a in d)

    def same(self, rule, got, want, site, what):
        """one linear form is another: yes, no, or not understood"""
        if got is None:
            self.open("%s was not followed" % what)
            return
        d = lin_add((1, got), (-1, want))
        if d and not self.know(got):
            self.open("%s is %s" % (what, spell(got)))
            return
        self.need(rule, not d, site, "%s is %s, not %s" % (what, spell(got), spell(want)))

    def spine(self):
        r = self.r
        nm = r.A.names
        self.seek = ("elem", ("fld", ("p", "branch"), nm["fBasketSeek"]), IT)
        self.size = ("elem", ("fld", ("p", "branch"), nm["fBasketBytes"]), IT)

        def about(t, what):
            return any(y == what for y in subterms(t))
        self.disk = ("fld", ("p", "branch"), nm["fBasketSeek"])
        self.kept = [e for e in self.evs if e[0] == "parse" and about(e[1][0], self.r.eb)]
        self.main = [e for e in self.evs if e[0] == "parse" and not about(e[1][0], self.r.eb)]
        if r.emb:
            labs = {}
            for e in self.evs:
                if e[0] == "parse":
                    c = [l for x, l in e[2] if x == ("chain",)]
                    labs.setdefault("kept" if e in self.kept else "disk", set()).add(c[0] if c else None)
            if not self.kept:
                if any(about(e[1], self.r.eb) for e in self.evs if e[0] in ("read", "basket", "parse", "decode", "header")):
                    self.open("what becomes of the basket kept in the record of the tree was not followed")
                else:
                    self.need("kept-basket", False, None, "the basket kept in the record of the tree is never handed out")
            elif labs.get("disk") == {0} and labs.get("kept") == {1}:
                self.need("kept-basket", True, None, "the kept basket comes after those on disk")
            elif labs.get("disk") == {1} and labs.get("kept") == {0}:
                self.need("kept-basket", False, None, "the basket kept in the record of the tree holds the last entries, and is handed out before the baskets on disk")
            else:
                self.open("the order of the baskets on disk and the kept one was not recognised")

        def nodes(it):
            if isinstance(it, tuple) and it and it[0] == "iter":
                yield it
                for y in it[2:]:
                    yield from nodes(y)
        for n in nodes(r.it):
            if n[1] in ("take", "take_while", "map_while", "skip_while") and any(y == self.disk or (isinstance(y, tuple) and y and y[0] == "ref") for y in subterms(n[2])):
                k = n[3] if len(n) > 3 else None
                if n[1] == "take" and k is not None and strip(k)[0] == "c":
                    self.need("every-basket", False, None, "at most %s baskets are handed out" % show(k))
                else:
                    self.open("which baskets are handed out depends on %s" % n[1])
        fs = {self.r.cs.x(t): (it, t, site) for it, t, site in r.I.filters or ()}
        for it, truth, site in fs.values():
            for n in (57, 100, 1000, 2 ** 31 - 1):
                def env(a):
                    return n if a == self.size else 1000 if a == self.seek else None
                v = self.T.value(truth, env)
                if v is None:
                    if about(self.r.cs.x(truth), self.disk) or about(self.r.cs.x(truth), ("fld", ("p", "branch"), nm["fBasketBytes"])):
                        self.open("a filter over the baskets was not understood: %s" % show(self.r.cs.x(truth))[:120])
                    else:
                        self.open("a filter was not understood: %s" % show(self.r.cs.x(truth))[:120])
                    break
                if not v:
                    self.need("every-basket", False, site, "a basket of %d bytes is left out" % n)
                    break
            else:
                self.need("every-basket", True, site, "no basket is left out")

    def places(self):
        r = self.r
        one = {self.seek: 1}
        seen = set()
        for k, data, conds, loops, site in self.evs:
            if k == "read":
                p, n = self.num(data[0]), self.num(data[1])
                d = lin_add((1, p), (-1, L(SK)))
                if any(a == SK for a in p):
                    seen.add("payload")
                    self.same("payload", p, lin_add((1, L(SK)), (1, L(KLEN))), site, "the place the data of a basket is read from")
                    want = lin_add((1, L(NB)), (-1, L(KLEN))) if r.comp else L(OLEN)
                    self.same("payload", n, want, site, "the number of bytes of data read")
                elif any(isinstance(a, tuple) and any(y == self.disk for y in subterms(a)) for a in p if a is not None):
                    seen.add("basket")
                    good = p == one
                    if not good and not self.shifted(p):
                        self.open("a basket is read at %s" % spell(p))
                    else:
                        self.need("basket-record", good, site, "a basket is read at %s, not at its place %s" % (spell(p), spell(one)))
                    if n == {self.size: 1}:
                        self.need("basket-record", True, site, "all its bytes are read")
                    elif set(n) <= {None, self.size}:
                        self.need("basket-record", False, site, "of a basket %s bytes are read, not %s" % (spell(n), spell({self.size: 1})))
                    else:
                        self.open("of a basket %s bytes are read" % spell(n))
                else:
                    self.open("a read at %s" % spell(p))
            elif k == "basket":
                b = self.T.place(data[0])
                if b is None or b[0] != "file":
                    self.open("what a basket is decoded from: %s" % show(data[0])[:120])
                    continue
                seen.add("decoded")
                if b[1] == one:
                    self.need("basket-record", not self.num(data[1]), site, "the record of a basket is decoded from byte %s of what was read" % spell(self.num(data[1])))
                else:
                    self.open("what a basket is decoded from: %s" % spell(b[1]))
        for w in ("basket", "decoded", "payload"):
            if w not in seen:
                self.open("no %s seen" % w)

    def shifted(self, p):
        """the place of a basket other than the one of this step"""
        for a in p:
            if a is None:
                continue
            if a[0] != "elem" or a[1] != self.disk:
                return False
            i = self.num(a[2])
            if not all(x is None or x == IT or x[0] == "revd" for x in i):
                return False
        return True

    def samples(self):
        """(bytes decoded so far, bytes used so far, stored, target, uncompressed, compressed)"""
        B = 0xffffff
        return [(0, 0, 60, 100, 100, 69), (0, 0, B, B, B + 50, B + 9 + 69), (B, B + 9, 60, 50, B + 50, B + 9 + 69)]

    def env(self, s, magic):
        done, used, src, tgt, full, comp = s
        m = {DONE: done, USED: used, OLEN: full, KLEN: 70, NB: 70 + comp, SK: 1000, NEV: 3, self.seek: 1000, self.size: 70 + comp,
             LAST: 70 + full if not self.r.table else 70 + full - 20}

        def f(a):
            if a in m:
                return m[a]
            if a[0] in ("byte", "le") and a[1] == "stored":
                o = lin_add((1, dict(a[2])), (-1, L(USED)))
                if set(o) <= {None}:
                    i, n = o.get(None, 0), a[3] if a[0] == "le" else 1
                    b = list(magic) + [8] + [(src >> (8 * j)) & 255 for j in range(3)] + [(tgt >> (8 * j)) & 255 for j in range(3)]
                    if 0 <= i and i + n <= 9:
                        return sum(b[i + j] << (8 * j) for j in range(n))
            return None
        return f

    def holds(self, conds, env, others=()):
        """whether all conditions hold: True, False or None"""
        res = True
        for c, l in conds:
            if c == ("chain",) or c[0] == "next":
                continue
            v = self.T.value(c, env)
            if v is None:
                res = None if res else res
                continue
            if l == "else":
                if any(v == x for cc, x in others if cc == c and x != "else"):
                    return False
                continue
            if isinstance(l, tuple) and l and l[0] == "in":
                if v not in l[1]:
                    return False
            elif v != l:
                return False
        return res

    def blocks(self):
        r = self.r
        dec = [e for e in self.evs if e[0] == "decode"]
        if not r.comp:
            others = [cl for e in self.evs if isinstance(e[2], tuple) for cl in e[2]]
            for k, data, conds, loops, site in self.evs:
                if k in ("refuse", "refused"):
                    self.refusal(k, data, conds, site, [(0, 0, 60, 100, 100, 100)], ALGS["zlib"], others)
            if dec:
                self.open("data stored uncompressed goes through a decoder")
            return
        if not dec:
            self.open("no decoder seen")
            return
        algs = {e[1][0][1] for e in dec}
        for k, data, conds, loops, site in self.evs:
            if k == "header":
                b = self.T.place(data[0])
                self.same("block", None if b is None or b[0] != "stored" else b[1], L(USED), site, "the place of the header of a block")
                self.same("block", self.num(data[1]), L(None, 9), site, "the size of the header of a block")
        for k, data, conds, loops, site in dec:
            alg = data[0][1]
            if len(loops) < 2:
                self.need("every-block", False, site, "only the first block of the data of a basket is decompressed")
                continue
            s, d = self.T.place(data[1]), self.T.place(data[2])
            src, tgt = self.sizes()
            if s is None or s[0] != "stored" or d is None or d[0] not in ("buffer", "payload"):
                self.open("what %s decodes was not followed" % alg)
                continue
            skip = 17 if alg == "lz4" else 9
            self.same("block", s[1], lin_add((1, L(USED)), (1, L(None, skip))), site, "the start of the bytes %s decodes" % alg)
            n = s[2]
            rest = lin_add((1, L(NB)), (-1, L(KLEN)), (-1, L(USED)), (-1, L(None, 9)))
            if n is not None and not (alg != "lz4" and n == rest):
                self.same("block", n, lin_add((1, src), (-1, L(None, skip - 9))), site, "the number of bytes %s decodes" % alg)
            self.same("block", d[1], L(DONE), site, "the place the bytes decoded by %s are put" % alg)
            if d[2] is not None:
                self.same("block", d[2], tgt, site, "the number of bytes decoded by %s" % alg)
        odd = getattr(self.T, "odd", None)
        if odd is not None:
            self.need("block", False, dec[0][4], "from one block to the next a position moves by %s" % spell(odd[1]))
        others = [cl for e in dec for cl in e[2]]
        for s in self.samples():
            for a, m in ALGS.items():
                env = self.env(s, m)
                res = [(e[1][0][1], self.holds(e[2], env, others), e[4]) for e in dec]
                mine = [x[1] for x in res if x[0] == a]
                wrong = [x for x in res if x[0] != a and x[1] is True]
                if wrong:
                    self.need("algorithm", False, wrong[0][2], "data marked %s is decoded by %s" % (a, wrong[0][0]))
                elif True in mine:
                    self.need("algorithm", True, None, "")
                elif a not in algs:
                    self.open("no %s decoder seen" % a)
                elif None in mine:
                    self.open("whether data marked %s is decoded was not understood" % a)
                else:
                    self.need("algorithm", False, [e[4] for e in dec if e[1][0][1] == a][0],
                              "a block marked %s after %d of %d bytes is not decoded" % (a, s[0], s[4]))
        inside = {e[3] for e in dec}
        for s in ((100, 69, 60, 100, 100, 69), (0xffffff + 50, 0xffffff + 78, 60, 50, 0xffffff + 50, 0xffffff + 78)):
            env = self.env(s, ALGS["zlib"])
            for k, data, conds, loops, site in self.evs:
                if loops not in inside or k not in ("header", "decode", "refuse", "refused"):
                    continue
                v = self.holds(conds, env, others)
                if v and k.startswith("refuse"):
                    x = self.T.value(data[0], env)
                    v = None if x is None else x in data[1][1] if isinstance(data[1], tuple) else x == data[1]
                if v:
                    self.need("algorithm", False, site, "another block is expected after all %d bytes" % s[4])
                elif v is None and k == "decode":
                    self.open("when decompression ends was not understood")
        for k, data, conds, loops, site in self.evs:
            if k in ("refuse", "refused"):
                for a, m in ALGS.items():
                    self.refusal(k, data, conds, site, self.samples(), m, others)

    def sizes(self):
        le = lambda o: {("le", "stored", key(lin_add((1, L(USED)), (1, L(None, o)))), 3): 1}       # noqa: E731
        return le(3), le(6)

    def refusal(self, k, data, conds, site, samples, magic, others):
        for s in samples:
            env = self.env(s, magic)
            if self.holds(conds, env, others) is not True:
                continue
            v = self.T.value(data[0], env)
            if v is None or data[1] == "else":
                continue
            hit = v in data[1][1] if isinstance(data[1], tuple) else v == data[1]
            if hit:
                self.need("refusal", False, site, "a well-formed basket is refused: %s is %s" % (show(data[0])[:120], data[1]))
                return

    def entries(self):
        r = self.r
        parts = [e for e in self.main]
        if not parts:
            self.open("no entry is decoded from the baskets on disk")
        for k, data, conds, loops, site in parts:
            p = data[0]
            if "f64 as" not in p[1]:
                self.open("an entry is decoded by %s" % p[1])
                continue
            try:
                self.entry(p, conds, loops, site)
            except Open as e:
                self.open(str(e))
        if r.emb and not r.element:
            for k, data, conds, loops, site in self.kept:
                self.kept_entry(data[0], conds, loops, site)

    def carried(self, cur):
        """whether decoding goes on where the last entry ended: None when it is not understood"""
        cur = strip(cur)
        d = self.T.lvs.get(cur) if cur[0] == "lv" else None
        if d is None or d.get("back") is None:
            return cur if cur[0] == "c" else None
        i = self.num(d["init"])
        self.T.stack.add(cur)
        self.T.role.pop(cur, None)
        n = lin_add((1, self.T.num(d["back"])), (-1, {("carry", cur): 1}))
        self.T.stack.discard(cur)
        ls = [a for a in n if a is not None and a[0] == "rlen"]
        if len(ls) == 1 and n == {ls[0]: 1}:
            return ("from", i)
        return None

    def turns(self, conds, loops):
        """number of entries decoded by the innermost loop"""
        for c, l in reversed(conds):
            if c[0] == "next" and l == 1 and c[1][:2] == ("iter", "range"):
                return lin_add((1, self.num(c[1][3])), (-1, self.num(c[1][2])))
        lid = loops[-1] if loops else None
        if lid is not None and lid[0] == "ext":
            return self.count(lid[3])
        return None

    def count(self, it):
        """number of steps of an iterator over entries or offsets, in a well-formed basket with a table of fNevBuf + 1 offsets"""
        k = it[1] if isinstance(it, tuple) and it and it[0] == "iter" else None
        if k == "range":
            return lin_add((1, self.num(it[3])), (-1, self.num(it[2])))
        if k in ("map", "cloned", "copied", "enumerate", "inspect", "rev"):
            return self.count(it[2])
        if k == "skip":
            a, b = self.count(it[2]), self.num(it[3])
            return None if a is None else lin_add((1, a), (-1, b))
        if k == "zip":
            a, b = self.count(it[2]), self.count(it[3])
            if a is None or b is None:
                return None
            d = lin_add((1, a), (-1, b))
            if set(d) <= {None}:
                return a if d.get(None, 0) <= 0 else b
            return None
        if k in ("chunks", "windows"):
            b = self.T.place(it[2])
            n = self.num(it[3])
            if b is None or b[2] is None or set(n) != {None}:
                return self.size_of(it[2]) if k == "chunks" and n == {None: 1} else None
            m = self.whole(b[2])
            n = n[None]
            if k == "windows":
                return lin_add((1, m), (-1, L(None, n - 1)))
            return {a: c // n for a, c in m.items()} if all(c % n == 0 for c in m.values()) else None
        if k == "src":
            v = it[2]
            if v[0] == "ref":
                if len(it) > 3 and it[3][0] in ("len", "count"):
                    return self.size_of(it[3][1])
                return self.count(it[3]) if len(it) > 3 and it[3][0] == "iter" else None
            return self.size_of(v)
        return None

    def whole(self, d):
        """in a well-formed basket with a table: fObjlen = fLast - fKeylen + 4 (fNevBuf + 2)"""
        c = d.get(OLEN, 0)
        if not c:
            return d
        return lin_add((1, d), (-c, L(OLEN)), (c, L(LAST)), (-c, L(KLEN)), (c, {NEV: 4, None: 8}))

    def size_of(self, v):
        v = strip(v)
        if v[0] == "iter":
            return self.count(v)
        if v[0] == "upd" and all(k[0] == "elem" for k, _ in v[2]):
            return self.size_of(v[1])
        if v[0] == "coll":
            return self.count(v[2])
        if v[0] == "lv":
            if self.T.pushes(v) is not None:
                lid = v[1][0]
                if lid[0] == "ext":
                    return self.count(lid[3])
        return None

    def entry(self, p, conds, loops, site):
        r = self.r
        bytes_, cur = p[2], p[3]
        x = strip(r.cs.x(bytes_))
        border = lin_add((1, L(LAST)), (-1, L(KLEN)))
        b = self.T.place(x) if x[0] != "elem" else None
        if b is not None:
            if b[0] != "payload":
                self.open("entries are decoded from %s" % b[0])
                return
            self.same("entries", b[1], {}, site, "the place of the first entry in the data of a basket")
            if b[2] is not None:
                self.same("entries", b[2], border if r.table else L(OLEN), site, "the number of bytes entries are decoded from")
            c = self.carried(cur)
            if c is None:
                self.open("where an entry is decoded from: %s" % show(cur)[:100])
                return
            if c[0] == "c":
                if len(loops) > 1:
                    self.need("entries", False, site, "every entry of a basket is decoded from byte %s of its data" % show(c))
                return
            self.same("entries", c[1], {}, site, "the place of the first entry in the data of a basket")
            if r.table and r.leaf != "C":
                cs = self.guess(conds)
                self.n += 1
                self.r.A.ctx.bad("entry-by-offset", "%s with a table of offsets%s" % ("TBranchElement" if r.element else "TBranch", cs), self.where(site),
                                 "the entries of a basket with a table of offsets are decoded one after the other, not each from its offset")
                return
            n = self.turns(conds, loops)
            self.same("entries", n, L(NEV), site, "the number of entries of a basket handed out")
            return
        v = r.cs.x(bytes_)
        if v[0] == "elem" and v[1][0] == "coll":
            e = models.at_index(v[1][1], v[2])
        elif v[0] in ("to_vec", "coll", "subslice"):
            e = v
        else:
            self.open("what an entry is decoded from: %s" % show(v)[:100])
            return
        b = self.T.place(e)
        if b is None or b[0] != "payload" or b[2] is None:
            self.open("what an entry is decoded from: %s" % show(e)[:100])
            return
        if not r.table:
            self.open("entries without a table of offsets are decoded from separate pieces")
            return
        c = self.carried(cur)
        if c is None or c[0] != "c":
            self.open("where an entry is decoded from: %s" % show(cur)[:100])
            return
        self.same("entries", self.num(c), {}, site, "the place in its piece an entry is decoded from")
        off = lambda k: {("be", "payload", key(lin_add((1, border), (4, L(IT)), (1, L(None, 4 + 4 * k)))), 4): 1, KLEN: -1}     # noqa: E731
        self.same("entry-by-offset", b[1], off(0), site, "the start of entry k in the data of a basket")
        self.same("entry-by-offset", lin_add((1, b[1]), (1, b[2])), off(1), site, "the end of entry k in the data of a basket")
        ends = [y for y in subterms(e) if y[0] == "upd" and self.size_of(y) is not None]
        last = [self.num(val) for y in ends for k, val in y[2] if self.T.inner(k[1], y[1])]
        if not last:
            vs = [y for y in subterms(e) if y[0] == "elem" and self.size_of(y[1]) is not None]
            if vs:
                self.need("entry-by-offset", False, site, "the end of the last entry is taken from the table, which does not hold it")
            else:
                self.open("where the last entry ends was not recognised")
        else:
            self.same("entry-by-offset", last[0], border, site, "the end of the last entry in the data of a basket")
        n = self.count(v[1][2]) if v[0] == "elem" and v[1][0] == "coll" else self.turns(conds, loops)
        self.same("entries", n, L(NEV), site, "the number of entries of a basket handed out")

    def guess(self, conds):
        """the condition under which offsets are not used, as part of the name of a finding"""
        fe = ("fld", ("p", "branch"), self.r.A.names["fEntries"])
        cs = [(c, l) for c, l in conds if c != ("chain",) and c[0] != "next"]
        if not any(y == fe for c, _ in cs for y in subterms(c)):
            return ""
        for data, n, want in ((40, 10, True), (40, 9, False), (40, 11, False), (44, 11, True), (4, 1, True), (8, 1, False)):
            m = {fe: n, LAST: 70 + data, KLEN: 70, OLEN: data + 4 * 9, NEV: 7}
            if self.holds(cs, lambda a: m.get(a, 4), cs) is not want:
                return ""
        return ", when data size / leaf size = fEntries"

    def kept_entry(self, p, conds, loops, site):
        r = self.r
        kl, nv = [path_of(r.eb, r.A.ro.path[n]) for n in ("key_len", "nev_buf")]
        v = strip(r.cs.x(p[2]))
        n = None
        if v[0] == "coll" and v[1][0] == "elem":
            n = lin_add((1, self.num(v[1][2])), (-1, L(IT)))
            src = v[1][1]
        elif v[0] == "subslice" and v[2] == "RangeFrom":
            n, src = self.num(v[3][0]), v[1]
        if n is None or not any(y == r.eb for y in subterms(src)):
            self.open("what the entries of the kept basket are decoded from: %s" % show(v)[:120])
            return
        if n == {kl: 1}:
            self.need("kept-basket", True, site, "behind the key")
        elif all(a is None or any(y == r.eb for y in subterms(a)) for a in n):
            self.need("kept-basket", False, site, "the data of the kept basket starts at byte %s of its record, not behind its key" % spell(n))
        else:
            self.open("the data of the kept basket starts at %s" % spell(n))
        c = self.carried(p[3])
        if c is None or c[0] != "from":
            self.open("where an entry of the kept basket is decoded from: %s" % show(p[3])[:100])
            return
        self.same("kept-basket", c[1], {}, site, "the place of the first entry of the kept basket")
        n = self.turns(conds, loops)
        if n == {nv: 1}:
            self.need("kept-basket", True, site, "all its entries")
        elif n is not None and all(a is None or a == nv for a in n):
            self.need("kept-basket", False, site, "%s entries of the kept basket are handed out, not all" % spell(n))
        else:
            self.open("the number of entries of the kept basket handed out was not followed")


def path_of(v, path):
    for f in path:
        v = ("fld", v, f)
    return v


def check(ctx):
    F = ctx.facts("witness")
    R = Reads(F)
    if R.why:
        ctx.bad("anchor", "RBuffer", "", R.why)
        return
    A = Analysis(ctx, F, R)
    if A.why:
        ctx.bad("anchor", "baskets", "", A.why)
        return
    if A.ro.missing:
        ctx.open("no field of a decoded basket holds %s" % ", ".join(A.ro.missing))
        return
    cases = [(l, 0, c, t) for l in variants(F) for c in (0, 1) for t in (0, 1)] + [("I", 1, 0, 0), ("Element", 1, 0, 0)]
    n, refused = 0, []
    for leaf, emb, comp, table in cases:
        label = "%s, %s, %s%s" % ("TBranchElement" if leaf == "Element" else "TBranch of " + leaf, "compressed" if comp else "uncompressed",
                                  "with offsets" if table else "without offsets", ", with a kept basket" if emb else "")
        try:
            r = Run(A, leaf, emb, comp, table)
        except Exception as e:          # noqa: BLE001
            ctx.open("%s: the analysis gave up: %s" % (label, str(e)[:200]))
            continue
        if r.why == "refused":
            refused.append(leaf)
            continue
        if r.why:
            ctx.open("%s: %s" % (label, r.why))
            continue
        j = Judge(ctx, r, label)
        j.run()
        n += 1
        ctx.cover["obligations, " + label] = j.n
    bad = sorted(set(refused) - {"Base"})
    if bad:
        ctx.open("branches of leaves %s hand out no iterator" % ", ".join(bad))
    ctx.floor("cases of branches read", n, 30)
    ctx.floor("obligations", len(ctx.obl), 150)
