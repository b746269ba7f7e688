"""C24: a read past the end of a buffer is an error, and only such a read."""
import re
import logic, wire
from absint import Interp, C, strip, show, subterms
from buf import RB, SELF, Reader
from logic import linear, fold

RULE = ("Every function that takes bytes from a read buffer through its public interface (read_*) is interpreted abstractly, with the "
        "conditions under which it returns an error recorded. Every range of the bytes of the buffer that is sliced (which panics "
        "when it is out of range) must come after a condition that returns an error exactly when the buffer ends before the end of "
        "the range; no condition on the length of the buffer refuses more than that.")
ASSUMPTIONS = ["cursor arithmetic does not overflow", "the cursor is never moved backwards past the beginning"]
SKIP = ("read_cstring",)


def gather(seq, out):
    for n in seq:
        if n[0] == "guard":
            out.append((n[1], n[2], n[3]))
            gather(n[4], out)
        elif n[0] == "alt":
            for l, s, f in n[2]:
                if f in ("err", "dead"):
                    out.append((n[1], l, f))
                gather(s, out)
        elif n[0] == "loop":
            gather(n[2], out)


def less(key, label, P):
    """(e, d): the refusal `key == label` says length of P < e + d ... as the linear form of len - e that is refused when < 0"""
    k = strip(key)
    pol = label
    while k[0] == "un" and k[1] == "Not":
        k, pol = strip(k[2]), not pol
    if k[0] == "inbounds" and k[1] == P:
        if pol not in (0, False):
            return None
        i = k[2]
        if i[0] == "adt":
            w = i[1].rsplit("::", 1)[1]
            end = i[3][1] if w == "Range" else i[3][0] if w in ("RangeTo", "RangeFrom") else None
            return linear(("bin", "Sub", ("len", P), end)) if end is not None else None
        return linear(("bin", "Sub", ("bin", "Sub", ("len", P), i), C(1)))
    if k[0] != "bin" or pol not in (True, False, 0, 1):
        return None
    op, a, b = k[1], k[2], k[3]
    d = linear(("bin", "Sub", a, b))
    neg = {x: -c for x, c in d.items()}
    pol = bool(pol)
    if op in ("Gt", "Ge"):
        op, d, neg = {"Gt": "Lt", "Ge": "Le"}[op], neg, d
    if not pol:
        # not (d < 0) is -d <= 0; not (d <= 0) is -d < 0
        op, d = {"Lt": "Le", "Le": "Lt"}.get(op), neg
    if op == "Le":
        d = dict(d)
        d[None] = d.get(None, 0) - 1
    elif op != "Lt":
        return None
    return d


def clean(d):
    return {k: c for k, c in d.items() if c}


def idx(I, c):
    """records what is sliced, and leaves the slicing to its model"""
    base = I.deref_all(c.args[0], c.st)
    i = I.deref_all(c.args[1], c.st)
    if i[0] == "adt" and "range" in i[1].lower():
        c.seq.append(("io", "slice", (("subslice", base, i[1].rsplit("::", 1)[1], i[3]),), None, c.site))
    return NotImplemented


def judge(ctx, F, R, b, nm, args):
    I = Interp(F, hooks={"std::ops::Index::index": idx})
    I.refusals = True
    seq, v, st = I.run(b, args)
    g = []
    gather(seq, g)
    P = R.P
    wants = []
    other = []
    for key, lab, fate in g:
        if not any(y == ("len", P) or y[0] == "inbounds" and y[1] == P for y in subterms(key)):
            continue
        d = less(key, lab, P)
        if d is None or clean(d).get(("len", P)) != 1:
            other.append(show(key)[:120])
        elif fate == "err":
            wants.append(clean(d))
        else:
            other.append("panics when " + show(key)[:120])
    take = []

    def slices(t):
        for y in subterms(t):
            if y[0] == "subslice" and strip(y[1]) == P and y[2] in ("Range", "RangeTo", "RangeFrom", "RangeInclusive"):
                if y not in take:
                    take.append(y)
            elif y[0] == "elem" and strip(y[1]) == P:
                z = ("subslice", P, "Range", (y[2], fold("Add", y[2], C(1))))
                if z not in take:
                    take.append(z)
    walk(seq, slices)
    slices(v)
    ends = []
    for y in take:
        e = y[3][1] if y[2] == "Range" else y[3][0]
        d = clean(linear(("bin", "Sub", ("len", P), e)))
        if y[2] == "Range" and any(not clean(linear(("bin", "Sub", ("len", P), x))) for x in arms(e)):
            ctx.bad("short-buffer-is-an-error", nm, b.where(), "the bytes taken end where the buffer ends when it is too short for "
                    "what is read, and no error is returned")
            continue
        if y[2] in ("RangeInclusive", "RangeFrom") and d not in wants or any(z[0] in ("top", "phi") for k in d if k is not None for z in subterms(k)):
            ctx.open("%s: end of a range not decided: %s" % (nm, show(e)[:120]))
            continue
        if (d, e) not in ends:
            ends.append((d, e))
    if len({y[3] for y in take}) > len(ends):
        other.append("other ranges are not decided")
    for d, e in ends:
        near = [same_but_const(d, w) for w in wants if same_but_const(d, w) is not None]
        over = [w for w in wants if (same_but_const(d, w) or 0) < 0 and not any(w == d2 for d2, _ in ends)]
        hit = any(x <= 0 for x in near) and not over
        if not hit and (other or not near and any(w.keys() == d.keys() for w in wants)):
            ctx.open("%s: the check of the range up to %s was not identified (%s)" % (nm, show(e)[:80], "; ".join(other)[:200]))
            continue
        ctx.ob("short-buffer-is-an-error", nm, b.where(), hit,
               "" if hit else "the bytes up to %s %s" % (show(e)[:100], "are refused though they are there" if over else
                                         "are taken without a check that the buffer has them: a shorter buffer panics"))
    return len(ends)


def arms(e, n=0):
    """values a term may take over its merges"""
    e = strip(e)
    if e[0] == "phi":
        return [x for _, a in e[2] for x in arms(a, n + 1)] if n < 6 else [e]
    if e[0] == "bin" and n < 6:
        out = []
        for i in (2, 3):
            if any(y[0] == "phi" for y in subterms(e[i])):
                for x in arms(e[i], n + 1):
                    out += arms(e[:i] + (x,) + e[i + 1:], n + 1) if x != e[i] else []
                return out or [e]
    return [e]


def same_but_const(d, w):
    """difference of two linear forms that differ by a constant only, w - d"""
    ks = set(d) | set(w)
    if any(d.get(k, 0) != w.get(k, 0) for k in ks if k is not None):
        return None
    return w.get(None, 0) - d.get(None, 0)


def walk(seq, f):
    for n in seq:
        if n[0] == "alt":
            f(n[1])
            for l, s, x in n[2]:
                walk(s, f)
        elif n[0] == "loop":
            walk(n[2], f)
        else:
            for y in n[1:]:
                if isinstance(y, tuple):
                    f(y)


def check(ctx):
    F = ctx.facts()
    R = Reader(F)
    if R.why:
        ctx.bad("anchor", "RBuffer", "", R.why)
        return
    n = m = 0
    for b in sorted(F.bodies.values(), key=lambda b: b.name):
        if not b.name.startswith(RB + "read_") or "closure" in b.name:
            continue
        nm = b.name[len(RB):]
        if "object" in nm or nm in SKIP or "::" in nm:
            continue
        r = ctx.attempt(nm, judge, ctx, F, R, b, nm, [SELF] + [("p", "a%d" % i) for i in range(1, b.argc)])
        if r:
            m += 1
            n += r
        elif r == 0:
            ctx.open("%s: no range of the bytes of the buffer identified" % nm)
    ctx.cover["primitives"] = m
    ctx.floor("primitives that take bytes", m, 15)
    ctx.floor("ranges of bytes taken", n, 18)
