"""What a function reads from the file: every positioned read with its place and length, and the decoded values written as
("at", place, width, type) over the places they come from.

std::io::{Seek::seek, Read::read_exact} become events and the bytes read the term ("file", place, length); the records of keys,
directories and free segments are decoded by the library's own code, every other Unmarshaler::unmarshal is one opaque
("parsed", impl, bytes, cursor, pos) value."""
import re
from absint import Interp, C, UNIT, ok, show, strip, subterms
import buf, iofx, logic
from logic import fold
from facts import norm

POS = ("H", ("filepos",))
UNM = "oxyroot::rbytes::Unmarshaler::unmarshal"
INLINE = re.compile(r"^<oxyroot::riofs::(key::Key|dir::TDirectoryFile|blocks::FreeSegments) as ")


class Reads:
    def __init__(self, F):
        self.F = F
        self.R = buf.Reader(F)
        self.why = self.R.why
        self.io = iofx.IO(F)
        if not self.why:
            self.ppath, _ = iofx.fields(self.R.P)
            self.epath, r = iofx.fields(self.R.E)
            if not self.epath:
                self.why = "the cursor of RBuffer is not a field"

    def target(self, I, x, st):
        for _ in range(8):
            if x[0] != "ref":
                break
            nx = I.pick(I.load(st, x[1], x[2]), st)
            if nx[0] != "ref":
                break
            x = nx
        return x

    def hooks(self):
        def seek(I, c):
            a = strip(I.deref_all(c.args[1], c.st))
            st = c.st.copy()
            p = a[3][0] if a[0] == "adt" and a[1].endswith("SeekFrom") and a[2] == 0 else ("top", "seek")
            st.store[POS] = p
            c.seq.append(("io", "seek", (p,), None, c.site))
            return ok(p), st

        def read(I, c):
            x = self.target(I, c.args[1], c.st)
            src = I.deref_all(c.args[0], c.st)
            if x[0] != "ref" or not is_file(self.F, I, c):
                return NotImplemented
            st = c.st.copy()
            n = logic.length(I.load(st, x[1], x[2]))
            p = st.store.get(POS, ("top", "place"))
            v = ("file", p, n)
            st.store[POS] = fold("Add", p, n)
            I.store_to(st, x[1], x[2], v, c.site)
            c.seq.append(("io", "read", (p, n), None, c.site))
            return ok(UNIT), st

        def unm(I, c):
            if INLINE.match(c.name):
                return NotImplemented
            x = self.target(I, c.args[1], c.st)
            y = c.args[0]
            if x[0] != "ref" or y[0] != "ref":
                return NotImplemented
            st = c.st.copy()
            B = I.load(st, x[1], x[2])
            bytes_ = I.deref_all(self.io.field(B, self.ppath), st)
            e = self.io.field(B, self.epath)
            pos = buf.project(self.R.POS, B)
            old = I.deref_all(y, st)
            v = ("parsed", c.name, bytes_, e, pos, old if old[0] in ("call", "p", "icallr") else ())
            I.store_to(st, y[1], y[2], v, c.site)
            new = self.io.setf(B, self.epath, lambda z: fold("Add", z, ("rlen", v)))
            I.store_to(st, x[1], x[2], new, c.site)
            c.seq.append(("io", "parse", (v,), None, c.site))
            return ok(UNIT), st

        def decomp(I, c):
            """bytes of a decoder: the bytes it was given, decoded"""
            x = self.target(I, c.args[1], c.st)
            return NotImplemented
        return {"std::io::Seek::seek": seek, "std::io::Read::read_exact": read, UNM: unm}

    def run(self, body, args, hooks=None, init=None, **kw):
        h = self.hooks()
        h.update(hooks or {})
        I = Interp(self.F, hooks=h, **kw)
        I.refusals = True
        seq, v, st = I.run(body, args, init)
        I.top_seq = seq
        return I, seq, v, st


def is_file(F, I, c):
    """whether read_exact is called on a file, buffered or not"""
    t = c.f.get("args") or []
    s = " ".join(F.tstr(x) or "" for x in t if isinstance(x, int)) + " " + c.name
    return "std::fs::File" in s or "BufReader" in s


def lin(t):
    """linear form as a hashable value"""
    d = logic.linear(t)
    return tuple(sorted(((k, c) for k, c in d.items() if c or k is None), key=repr))


def unlin(p):
    """term of a linear form"""
    out = None
    k0 = 0
    for k, c in p:
        if k is None:
            k0 = c
            continue
        x = k if abs(c) == 1 else ("bin", "Mul", k, C(abs(c)))
        out = fold("Add", out, x) if out is not None and c > 0 else fold("Sub", out if out is not None else C(0), x) if c < 0 else x
    if out is None:
        return C(k0)
    return fold("Add", out, C(k0)) if k0 > 0 else fold("Sub", out, C(-k0)) if k0 < 0 else out


def at(place, off, width):
    return ("at", lin(fold("Add", place, C(off)) if off else place), width)


class Case:
    """terms and events of a run under assumptions on the values in the file: iv = intervals of ("at", place, width) atoms and
    other atoms, facts = linear terms known to be >= 0, small = what is known of one-byte string lengths"""

    def __init__(self, io, iv, facts=(), extra=None):
        self.io = io
        self.iv = dict(iv)
        self.facts = [logic.linear(f) for f in facts]
        self.extra = extra
        self.memo = {}

    def x(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        m = self.memo.get(id(t))
        if m is not None and m[0] is t:
            return m[1]
        r = self._x(t)
        self.memo[id(t)] = (t, r)
        return r

    def loc(self, b):
        """place in the file of a byte string and its length"""
        b = strip(b)
        if b[0] == "file":
            return b[1], b[2]
        if b[0] == "subslice":
            l = self.loc(b[1])
            if l is None:
                return None
            p, n = l
            a = b[3]
            if b[2] == "Range":
                return fold("Add", p, a[0]), fold("Sub", a[1], a[0])
            if b[2] == "RangeFrom":
                return fold("Add", p, a[0]), fold("Sub", n, a[0])
            if b[2] == "RangeTo":
                return p, a[0]
            if b[2] == "RangeFull":
                return p, n
        return None

    def _x(self, t):
        k = t[0]
        if k in ("c", "s", "p"):
            return t
        if k == "phi":
            c = self.x(t[1])
            lab = self.choose(c)
            if lab is not None:
                v = logic.pick_arm(t[2], lab)
                if v is not None:
                    return self.x(v)
            arms = tuple((l, self.x(v)) for l, v in t[2])
            if all(v == arms[0][1] for _, v in arms):
                return arms[0][1]
            return ("phi", c, arms)
        if k == "bin":
            a, b = self.x(t[2]), self.x(t[3])
            if t[1] == "Rem" and strip(b)[0] == "c":
                n = strip(b)[1]
                r = self.range(logic.linear(a))
                if r and r[0] is not None and r[1] is not None and n and r[0] // n == r[1] // n and r[0] >= 0:
                    return fold("Sub", a, C(r[0] // n * n)) if r[0] // n else a
            return fold(t[1], a, b)
        if k == "cast":
            if t[2][0] == "cast" and t[2][1] == "i8" and t[1] not in ("u8", "i8") and not str(t[1]).endswith("!"):
                return ("sext", self.x(t[2][2]))        # a byte taken for a signed one
            return self.x(t[2])
        if k == "from_be":
            b = self.x(t[2])
            l = self.loc(b)
            if l is not None:
                return ("at", lin(l[0]), t[1])
            n = b[1] if b[0] == "arr" else ()
            n = [strip(y) for y in n]
            if n and len(n) == t[1] and all(y[0] == "at" and y[2] == 1 for y in n):
                ps = [{k: c for k, c in y[1] if c or k is None} for y in n]
                if all({**ps[0], None: ps[0].get(None, 0) + i} == {**q, None: q.get(None, 0)} for i, q in enumerate(ps)):
                    return ("at", n[0][1], t[1])
            return ("from_be", t[1], b) + tuple(t[3:])
        if k == "len":
            return logic.length(self.norm_file(self.x(t[1])))
        if k == "ref":
            u = logic.unref(t)
            if u is not t:
                return self.x(u)
        if k == "fld":
            return self.io.get(self.x(t[1]), t[2])
        return tuple(self.x(y) if isinstance(y, tuple) else y for y in t)

    def norm_file(self, v):
        if v[0] == "file":
            return ("repn", C(0), v[2])
        if v[0] == "subslice" and v[2] == "RangeFrom" and v[1][0] in ("file", "subslice"):
            l = self.loc(v)
            if l is not None:
                return ("repn", C(0), l[1])
        return v

    def range(self, d):
        """interval of a linear form"""
        lo = hi = d.get(None, 0)
        for a, c in d.items():
            if a is None or not c:
                continue
            r = self.iv.get(a)
            if r is None and self.extra is not None:
                r = self.extra(a)
            if r is None:
                return None
            l, h = (r[0], r[1]) if c > 0 else (r[1], r[0])
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def nonneg(self, d):
        """whether a linear form is known to be >= 0"""
        r = self.range(d)
        if r is not None and r[0] is not None and r[0] >= 0:
            return True
        for f in self.facts:
            e = dict(d)
            for k, c in f.items():
                e[k] = e.get(k, 0) - c
            e = {k: c for k, c in e.items() if c or k is None}
            r = self.range(e)
            if r is not None and r[0] is not None and r[0] >= 0:
                return True
        return False

    def choose(self, c):
        c = strip(c)
        if c[0] == "c":
            return c[1]
        if c[0] == "checked" or (c[0] == "discr" and c[1][0] == "checked"):
            return 1
        if c[0] in ("at", "from_be", "fld", "cast"):
            r = self.iv.get(strip(c))
            if r and r[0] == r[1]:
                return r[0]
            return None
        if c[0] == "un" and c[1] == "Not":
            r = self.choose(c[2])
            return None if r is None else not r
        if c[0] == "bin" and c[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            op, a, b = c[1], c[2], c[3]
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            if a[0] == "s" or b[0] == "s":
                return None
            d = logic.linear(("bin", "Sub", a, b))          # a - b
            m = {k: -v for k, v in d.items()}
            one = dict(m)
            one[None] = one.get(None, 0) - 1                # b - a - 1
            up = dict(d)
            up[None] = up.get(None, 0) - 1
            if op == "Lt":
                return True if self.nonneg(one) else False if self.nonneg(d) else None
            if op == "Le":
                return True if self.nonneg(m) else False if self.nonneg(up) else None
            r = True if all(not v for v in d.values()) else False if self.nonneg(one) or self.nonneg(up) else None
            return r if op == "Eq" or r is None else not r
        if c[0] == "discr":
            v = strip(c[1])
            if v[0] == "adt":
                return v[2]
        return None

    def walk(self, seq, conds=(), path=()):
        """(kind, data, conditions not decided, loops around) of every event in order; refusals as ("refuse", condition, label)"""
        for n in seq:
            if n[0] == "alt":
                c = self.x(n[1])
                lab = self.choose(c)
                arms = [(l, s, f) for l, s, f in n[2]]
                if lab is not None:
                    hit = [a for a in arms if a[0] == lab or (isinstance(a[0], tuple) and a[0] and a[0][0] == "in" and lab in a[0][1])]
                    if not hit:
                        hit = [a for a in arms if a[0] == "else"]
                    if hit:
                        if hit[0][2] in ("err", "dead"):
                            yield "refused", (c, hit[0][0], hit[0][2]), conds, path, n[3]
                        yield from self.walk(hit[0][1], conds, path)
                        continue
                going = [a for a in arms if a[2] not in ("err", "dead")]
                for l, s, f in arms:
                    if f in ("err", "dead"):
                        yield "refuse", (c, l, f), conds, path, n[3]
                        if going:
                            continue
                    yield from self.walk(s, conds + (((c, l),) if len(going) > 1 else ()), path)
            elif n[0] == "guard":
                c = self.x(n[1])
                lab = self.choose(c)
                if lab is None:
                    yield "refuse", (c, n[2], n[3]), conds, path, n[5]
                elif lab == n[2] or (isinstance(n[2], tuple) and n[2] and n[2][0] == "in" and lab in n[2][1]):
                    yield "refused", (c, n[2], n[3]), conds, path, n[5]
            elif n[0] == "loop":
                yield "loop", n[1], conds, path, None
                yield from self.walk(n[2], conds, path + (n[1],))
                yield "endloop", n[1], conds, path, None
            elif n[0] == "io":
                yield n[1], tuple(self.x(y) for y in n[2]), conds, path, n[4]
            else:
                yield n[0], n, conds, path, None
