"""What the buffer primitives do to the bytes, read off the abstract interpretation of their MIR. The cursor and the
bytes are identified through the public accessors (pos, len), never by the names of private fields."""
from absint import Interp, strip, subterms, C, show
import logic
from logic import simp, linear, fold

RB = "oxyroot::rbytes::rbuffer::RBuffer::"
WB = "oxyroot::rbytes::wbuffer::WBuffer::"
SELF = ("p", "self")
WIDTH = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}


def run(F, name, hooks=None, nargs=None):
    b = F.one(name)
    if b is None:
        return None
    I = Interp(F, hooks=hooks or {})
    seq, v, st = I.run(b, [SELF] + [("p", "a%d" % i) for i in range(1, b.argc)])
    fin = st.store.get(("H", SELF), SELF) if st is not None else None
    return b, I, seq, v, fin


def project(term, final):
    """the term over ('p','self') evaluated in the final state of self"""
    def rec(t):
        if t == SELF:
            return final
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "fld":
            x = rec(t[1])
            return get(x, t[2])
        if t[0] == "len":
            return logic.length(rec(t[1]))
        if t[0] == "bin":
            return fold(t[1], rec(t[2]), rec(t[3]))
        if t[0] == "cast":
            return rec(t[2])
        return tuple(rec(x) if isinstance(x, tuple) else x for x in t)

    def get(x, f):
        if x[0] == "upd":
            for k, v in x[2]:
                if k == f:
                    return v
            return get(x[1], f)
        if x[0] == "phi":
            return ("phi", x[1], tuple((l, get(y, f)) for l, y in x[2]))
        return ("fld", x, f)
    return rec(term)


def resolve(v, choose):
    """replace every merge whose condition `choose` decides by the chosen arm"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "phi":
        c = resolve(v[1], choose)
        lab = choose(c)
        if lab is not None:
            x = logic.pick_arm(v[2], lab)
            if x is not None:
                return resolve(x, choose)
        return ("phi", c, tuple((l, resolve(x, choose)) for l, x in v[2]))
    if v[0] == "bin":
        return fold(v[1], resolve(v[2], choose), resolve(v[3], choose))
    if v[0] == "cast":
        return resolve(v[2], choose)
    if v[0] == "ref":
        u = logic.unref(v)
        if u is not v:
            return resolve(u, choose)
    return tuple(resolve(x, choose) if isinstance(x, tuple) else x for x in v)


def chooser(extra=None, P=None):
    """decides conditions on the assumption that the buffer holds enough bytes and that lengths do not overflow"""
    def f(c):
        if extra is not None:
            r = extra(c)
            if r is not None:
                return r
        if c[0] == "checked":
            return 1
        if c[0] == "discr" and c[1][0] == "checked":
            return 1
        if c[0] == "bin" and c[1] == "Lt" and P is not None:
            a, b = strip(c[2]), strip(c[3])
            if a == ("len", P):
                return False          # len < wanted
            if b == ("len", P):
                return True           # position < len
        return logic.decide(c, None, None)
    return f


def one_arm(v, choose):
    return resolve(v, choose)


def okval(v):
    from absint import RES
    if v[0] == "adt" and v[1] == RES and v[2] == 0:
        return v[3][0]
    return None


def lin_eq(a, b):
    return logic.lin_eq(a, b)


class Reader:
    """P: the bytes, E: cursor as an index into them, POS: what pos() reports"""

    def __init__(self, F):
        self.F = F
        self.why = None
        ln = run(F, RB + "len")
        ps = run(F, RB + "pos")
        if not ln or not ps:
            self.why = "RBuffer::len / RBuffer::pos not found"
            return
        L = linear(ln[3])
        pos = [k for k, c in L.items() if k is not None and c == 1 and strip(k)[0] == "len"]
        if len(pos) != 1:
            self.why = "RBuffer::len is not (bytes) - (cursor)"
            return
        self.P = strip(pos[0])[1]
        self.E = fold("Sub", pos[0], ln[3]) if False else neg(L, pos[0])
        self.POS = ps[3]
        self.off = logic.lin_sub(self.POS, self.E)
        # the cursor of pos() and of len() must be the same quantity
        d = linear(("bin", "Sub", self.POS, self.E))
        cur = [k for k, c in linear(self.E).items() if k is not None and c]
        self.consistent = not any(d.get(k) for k in cur)

    def after(self, fin, choose=None):
        return resolve(project(self.E, fin), choose or chooser(P=self.P))

    def bytes_after(self, fin):
        return project(self.P, fin)


def neg(L, atom):
    """-(L - atom)"""
    t = C(-L.get(None, 0))
    for k, c in L.items():
        if k is None or k == atom or c == 0:
            continue
        for _ in range(abs(c)):
            t = fold("Add" if c < 0 else "Sub", t, k) if t != C(0) or c > 0 else k
    return t


class Writer:
    def __init__(self, F):
        self.F = F
        self.why = None
        p, ps, ln = run(F, WB + "p"), run(F, WB + "pos"), run(F, WB + "len")
        if not ps or not ln:
            self.why = "WBuffer::pos / WBuffer::len not found"
            return
        v = ln[3]
        if strip(v)[0] != "len":
            self.why = "WBuffer::len is not the length of the bytes"
            return
        self.P = strip(v)[1]
        self.POS = ps[3]

    def bytes_after(self, fin):
        return project(self.P, fin)

    def pos_after(self, fin):
        return project(self.POS, fin)


def appended(v, P):
    """list of chunks appended to P, or None"""
    out = []
    while v != P:
        if v[0] == "ext":
            out.append(v[2])
            v = v[1]
        else:
            return None
    out.reverse()
    return out
