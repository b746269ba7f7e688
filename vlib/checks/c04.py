"""C04: a versioned record announces its own length, and header and reader agree on the framing."""
import re
import logic, wire, buf
from absint import CASTW, Interp, strip, show, subterms, C, ok
from buf import RB, WB, WIDTH, run, resolve, chooser, okval, lin_eq, Reader, Writer, appended
from c01 import bodies

RULE = ("write_header, set_header and read_header are abstractly interpreted: the bytes reserved, the position remembered, the "
        "byte count patched in (everything after the count word, with the byte-count mark) and the way the reader tells the "
        "two forms of header apart are compared as terms; a reader that skips a bare version skips the rest of a count as well when "
        "the version carries the mark. In the wire tree of every marshaller, every header that is opened is "
        "closed exactly once, innermost first, on every path that succeeds.")
ASSUMPTIONS = ["records are shorter than 2^30 bytes"]
MASK = 0x40000000
HDR = ("p", "a1")


def check(ctx):
    F = ctx.facts()
    R, W = Reader(F), Writer(F)
    for nm, o in (("RBuffer", R), ("WBuffer", W)):
        if o.why:
            ctx.bad("anchor", nm, "", o.why)
            return
    for nm, fn in (("write_header", write_header), ("set_header", set_header), ("read_header", read_header)):
        ctx.attempt(nm, fn, ctx, F, R, W)
    ctx.attempt("bare versions", bare_version, ctx, F)
    balanced(ctx, F)


NUM = re.compile(r"^[ui](8|16|32|64)$|^f(32|64)$|^bool$")


def bare_version(ctx, F):
    """readers that begin with a 16-bit version outside a header: when it carries the byte-count mark (a record with a byte
    count begins with the mark), the rest of the count and the version that follows it are skipped as well"""
    _, R = bodies(F)
    n = 0
    for r, bs in sorted(R.items()):
        if not r.endswith("::Object"):
            continue
        for b in bs:
            got = {}
            for v in (1, 0x4000):
                first = []

                def mk(h0):
                    def f(I, c):
                        x, st = h0(I, c)
                        if first:
                            return x, st
                        first.append(1)
                        return ok(C(v)), st
                    return f
                h = wire.reader_hooks()
                for k in ("read_u16", "read_i16"):
                    h[RB + k] = mk(h[RB + k])
                args = [("p", "r")] if b.argc == 1 else [("p", "rself"), ("p", "r")]
                seq, val, st = Interp(F, hooks=h).run(b, args)
                got[v] = before_branch(seq) if first else None
            n += 1
            if None in got.values():
                ctx.open("%s: bytes skipped for a bare version not decided" % r)
                continue
            ctx.ob("bare-version-with-byte-count", r.rsplit("::", 1)[-1], b.where(), got[0x4000] - got[1] == 4,
                   "a version that carries the byte-count mark makes the reader skip %d more bytes, not 4" % (got[0x4000] - got[1]))
    ctx.floor("readers of a bare version", n, 1)


def before_branch(seq):
    """bytes read before the first branch"""
    n = 0
    for e in seq:
        if e[0] == "ev" and e[1] == "R":
            if e[2] == "seek" and e[3] == "skip" and strip(e[4][0])[0] == "c":
                n += strip(e[4][0])[1]
            elif e[2] == "prim" and NUM.match(e[3]):
                n += WIDTH[e[3]]
            elif e[2] == "arr" and strip(e[5])[0] == "c" and NUM.match(e[3]):
                n += strip(e[5])[1] * WIDTH[e[3]]
            else:
                return None
        elif e[0] in ("alt", "loop"):
            break
    return n


def hfields(F):
    return [f[0] for f in F.adt_by_name[wire.HEADER]["variants"][0]["fields"]]


def hget(F, v, name):
    for f, x in zip(hfields(F), v[3]):
        if f == name:
            return x
    return None


def pos_field(F, v, POS):
    """the header field holding a position equal to POS"""
    return [f for f, x in zip(hfields(F), v[3]) if lin_eq(x, POS)]


def write_header(ctx, F, R, W):
    x = run(F, WB + "write_header")
    if x is None:
        ctx.bad("anchor", "write_header", "", "not found")
        return
    b, I, seq, v, fin = x
    ch = appended(W.bytes_after(fin), W.P)
    if ch is None:
        ctx.open("write_header: appended bytes not decided")
    else:
        ok = len(ch) == 2 and ch[0][:2] == ("be", 4) and strip(ch[0][2])[0] == "c" and ch[1][:2] == ("be", 2) and \
            strip(ch[1][2]) == ("p", "a2")
        ctx.ob("reserves-count-and-version", "write_header", b.where(), ok, "appends %s" % [show(c)[:60] for c in ch])
    h = okval(v)
    if h is None or h[0] != "adt":
        ctx.open("write_header: result not decided")
        return
    ctx.ob("remembers-its-start", "write_header", b.where(), bool(pos_field(F, h, W.POS)),
           "no field of the returned header holds the position before the count word")


def set_header(ctx, F, R, W):
    x = run(F, WB + "write_header")
    h = okval(x[3]) if x else None
    fs = pos_field(F, h, W.POS) if h is not None and h[0] == "adt" else []
    x = run(F, WB + "set_header")
    if x is None:
        ctx.bad("anchor", "set_header", "", "not found")
        return
    b, I, seq, v, fin = x
    p = W.bytes_after(fin)
    if p[0] != "upd" or strip(p[1]) != W.P or len(p[2]) != 1:
        ap = appended(p, W.P)
        if ap is not None:
            ctx.bad("patches-byte-count", "set_header", b.where(), "the count word is not patched in place")
        else:
            ctx.open("set_header: patched bytes not decided: %s" % show(p)[:160])
        return
    key, val = p[2][0]
    start = None
    for f in fs:
        start = ("fld", HDR, f)
    ch = chooser(P=R.P)
    lossy = [y for y in subterms(val) if y[0] == "cast" and str(y[1]).endswith("!") and CASTW[y[1][:-1]] < 4]
    ctx.ob("counts-with-32-bits", "set_header", b.where(), not lossy, "the length goes through %s" % [y[1][:-1] for y in lossy])
    val = resolve(val, ch)
    if val[0] != "be":
        ctx.open("set_header: patched value not decided: %s" % show(val)[:160])
        return
    n, w = val[1], strip(val[2])
    if n != 4:
        ctx.bad("patches-byte-count", "set_header", b.where(), "patches %d bytes" % n)
        return
    if w[0] == "bin" and w[1] in ("BitOr", "Add"):
        m = [strip(y) for y in w[2:4]]
        c = [y for y in m if y[0] == "c"]
        r = [y for y in m if y[0] != "c"]
        ctx.ob("byte-count-mark", "set_header", b.where(), len(c) == 1 and c[0][1] == MASK, "marks with %s" % [show(y) for y in c])
        if start is not None and r:
            want = ("bin", "Sub", ("bin", "Sub", W.POS, start), C(4))
            ctx.ob("counts-what-follows", "set_header", b.where(), lin_eq(r[0], want), "counts %s" % show(r[0])[:160])
    else:
        if any(y[0] in ("phi", "top") for y in subterms(w)):
            ctx.open("set_header: patched value not decided: %s" % show(w)[:160])
        else:
            ctx.bad("byte-count-mark", "set_header", b.where(), "patches %s" % show(w)[:160])
    # where: the in-place write starts at the header
    at = [y for y in subterms(p) if y[0] == "inplace"]
    g = [e for e in wire.norm_seq(seq) if e[0] == "guard"]
    if start is not None:
        ends = []
        for e in g:
            for y in subterms(e[1]):
                if y[0] == "bin" and y[1] == "Lt" and strip(y[2]) == ("len", W.P):
                    ends.append(y[3])
        want = ("bin", "Add", ("bin", "Sub", start, logic.lin_sub(W.POS, ("fld", ("fld", ("p", "self"), "w"), "c"))), C(4))
        rng = idx_range(key)
        if rng is not None:
            off = offset_of(W)
            if off is not None:
                ctx.ob("patched-at-its-start", "set_header", b.where(), lin_eq(rng, ("bin", "Sub", start, off)),
                       "patched at %s" % show(rng)[:120])
        elif ends:
            off = offset_of(W)
            if off is not None:
                ctx.ob("patched-at-its-start", "set_header", b.where(),
                       any(lin_eq(e, ("bin", "Add", ("bin", "Sub", start, off), C(4))) for e in ends),
                       "patch ends at %s" % [show(e)[:100] for e in ends])


def idx_range(key):
    if isinstance(key, tuple):
        for y in subterms(key):
            if y[0] == "subslice":
                return y[3][0]
    return None


def offset_of(W):
    """the part of pos() that is not the cursor: a field of the buffer that write_u8 leaves alone"""
    x = run(W.F, WB + "write_u8")
    if x is None:
        return None
    fin = x[4]
    keep = C(0)
    for a, c in logic.linear(W.POS).items():
        if a is None or not c:
            continue
        if buf.project(a, fin) == a:
            for _ in range(c):
                keep = a if keep == C(0) else ("bin", "Add", keep, a)
    return keep


def read_header(ctx, F, R, W):
    x = run(F, RB + "read_header")
    if x is None:
        ctx.bad("anchor", "read_header", "", "not found")
        return
    b, I, seq, v, fin = x
    h = v
    tests = [c for c in logic.phi_conds(v) + logic.phi_conds(fin) if mask_of(c) is not None]
    if not tests:
        ctx.open("read_header: the test that tells the two forms apart was not identified")
        return
    m = {mask_of(c) for c in tests}
    ctx.ob("byte-count-mark", "read_header", b.where(), m == {MASK}, "tests mask %s" % [hex(y) for y in m])
    for marked in (True, False):
        def extra(c):
            mm = mask_of(c)
            if mm is None:
                return None
            zero = c[1] == "Eq" and strip(c[3]) == C(0) or c[1] == "Eq" and strip(c[2]) == C(0)
            if c[1] == "Eq":
                z = strip(c[3]) == C(0) or strip(c[2]) == C(0)
                return (not marked) if z else marked
            if c[1] == "Ne":
                z = strip(c[3]) == C(0) or strip(c[2]) == C(0)
                return marked if z else (not marked)
            if c[1] == "Lt":
                return marked if strip(c[2]) == C(0) else None
            return None
        ch = chooser(extra, P=R.P)
        hv = okval(resolve(h, ch))
        nm = "read_header[%s]" % ("with byte count" if marked else "version only")
        if hv is None or hv[0] != "adt":
            ctx.open(nm + ": result not decided")
            continue
        after = R.after(fin, ch)
        hv = resolve(hv, ch)
        rd = [(f, y) for f, xx in zip(hfields(F), hv[3]) for y in subterms(xx) if y[0] == "from_be"]
        vers = [y for f, y in rd if y[1] == 2]
        cnt = [y for f, y in rd if y[1] == 4]
        if not vers:
            ctx.open(nm + ": version not decided")
        else:
            at = strip(vers[0][2])
            want = ("bin", "Add", R.E, C(4)) if marked else R.E
            ctx.ob("version-position", nm, b.where(), at[0] == "subslice" and lin_eq(resolve(at[3][0], ch), want),
                   "version read at %s" % show(at)[:120])
        want = ("bin", "Add", R.E, C(6 if marked else 2))
        if any(y[0] in ("phi", "top") for y in subterms(after)):
            ctx.open(nm + ": cursor not decided")
        else:
            ctx.ob("header-width", nm, b.where(), lin_eq(after, want), "cursor becomes %s" % show(after)[:120])
        if marked and cnt:
            lenv = [xx for f, xx in zip(hfields(F), hv[3]) if any(y in cnt for y in subterms(xx))]
            msk = [y for xx in lenv for y in subterms(xx) if y[0] == "bin" and y[1] in ("BitAnd", "BitXor", "Sub")]
            ok = any((y[1] == "BitAnd" and any(strip(z)[0] == "c" and (strip(z)[1] & 0x7fffffff) == 0x3fffffff for z in y[2:4]))
                     or (y[1] in ("BitXor", "Sub") and any(strip(z) == C(MASK) for z in y[2:4])) for y in msk)
            ctx.ob("byte-count-value", nm, b.where(), ok, "length is %s" % [show(xx)[:120] for xx in lenv])


def mask_of(c):
    if c[0] != "bin" or c[1] not in ("Eq", "Ne", "Lt"):
        return None
    for y in c[2:4]:
        y = strip(y)
        if y[0] == "bin" and y[1] == "BitAnd":
            for z in y[2:4]:
                if strip(z)[0] == "c":
                    return strip(z)[1]
    return None


# --------------------------------------------------------------------- marshallers
def balanced(ctx, F):
    Wb, _ = bodies(F)
    nh = nw = 0
    for w, wb in sorted(Wb.items()):
        short = w.rsplit("::", 1)[-1]
        x = ctx.attempt(short, wire.run_writer, F, wb)
        if x is None:
            continue
        I, wt, v, st = x
        if not wire.has_tokens(wt):
            continue
        nw += 1
        errs = []
        left, k = walk(wt, (), errs)
        nh += k
        for s in left or ():
            for u in s:
                errs.append("a header that is opened is never closed")
        seen = sorted(set(errs))
        ctx.ob("headers-closed", short, wb.where(), not seen, "; ".join(seen))
    ctx.floor("marshallers", nw, 30)
    ctx.floor("headers", nh, 20)


def walk(nodes, stack, errs):
    """set of open-header stacks possible after the nodes, number of headers seen"""
    cur = {stack}
    n = 0
    for x in nodes:
        if x[0] == "ev" and x[2] == "hdr":
            n += 1
            cur = {s + (x[5],) for s in cur}
        elif x[0] == "ev" and x[2] == "endhdr":
            nx = set()
            for s in cur:
                if x[3] is None:
                    nx.add(s[:-1])
                elif not s:
                    errs.append("a header is closed that is not open")
                    nx.add(s)
                elif s[-1] != x[3]:
                    errs.append("headers are not closed innermost first" if x[3] in s else
                                "a header is closed that is not open")
                    nx.add(tuple(y for y in s if y != x[3]))
                else:
                    nx.add(s[:-1])
            cur = nx
        elif x[0] == "alt":
            nx = set()
            for s in cur:
                for l, sub in x[2]:
                    r, k = walk(sub, s, errs)
                    n += k
                    nx |= r
            cur = nx
        elif x[0] == "loop":
            nx = set(cur)
            for s in cur:
                r, k = walk(x[3], s, errs)
                n += k
                if any(y != s for y in r):
                    errs.append("a loop opens and closes headers unevenly")
        if len(cur) > 64:
            cur = set(list(cur)[:64])
    return cur, n
