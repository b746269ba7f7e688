"""C03: every primitive is written and read as the big-endian bytes of its own type, and the cursor moves by its width."""
import re
import align, buf, logic, wire
from absint import strip, show, subterms, C
from buf import RB, WB, WIDTH, run, resolve, chooser, okval, lin_eq, Reader, Writer, appended

RULE = ("Every read_*/write_* primitive of the buffers, the length-prefixed and nul-terminated strings, the array forms, and "
        "the Marshaler/Unmarshaler of every primitive, String, Vec, array and hash container are abstractly interpreted; "
        "the bytes taken or appended, their order, the decoded value, the movement of the cursor and the number of bytes "
        "reported are compared as terms, for all values and positions at once.")
ASSUMPTIONS = ["from_be_bytes / to_be_bytes of the standard library are inverse of each other",
               "lengths fit in 32 bits; cursor arithmetic does not overflow"]


def be(n, x, kinds):
    return lambda v: v[0] == "be" and v[1] == n and strip(v[2]) == x


def check(ctx):
    F = ctx.facts()
    R, W = Reader(F), Writer(F)
    for nm, o in (("RBuffer", R), ("WBuffer", W)):
        if o.why:
            ctx.bad("anchor", nm, "", o.why)
    if R.why or W.why:
        return
    ctx.ob("cursor", "RBuffer::pos", run(F, RB + "pos")[0].where(), R.consistent,
           "pos() and len() do not follow the same cursor")
    nprim = 0
    for k, n in WIDTH.items():
        nprim += ctx.attempt("read_" + k, reader_prim, ctx, F, R, k, n) or 0
        nprim += ctx.attempt("write_" + k, writer_prim, ctx, F, W, k, n) or 0
    ctx.floor("buffer primitives", nprim, 22)
    ctx.attempt("arrays", arrays, ctx, F, R, W)
    ctx.attempt("strings", strings, ctx, F, R, W)
    ctx.attempt("moves", moves, ctx, F, R)
    impls(ctx)


def reader_prim(ctx, F, R, k, n):
    x = run(F, RB + "read_" + k)
    if x is None:
        ctx.bad("anchor", "read_" + k, "", "primitive not found")
        return 0
    b, I, seq, v, fin = x
    ch = chooser(P=R.P)
    val = okval(resolve(v, ch))
    if val is None:
        ctx.open("read_%s: value not decided: %s" % (k, show(v)[:200]))
        return 1
    e = strip(resolve(val, ch))
    neg = None
    kind = k
    if k == "bool":
        # any non-zero byte is true
        pol = True
        while e[0] == "un" and e[1] == "Not":
            e, pol = strip(e[2]), not pol
        if e[0] == "bin" and e[1] in ("Ne", "Eq"):
            a, c = strip(e[2]), strip(e[3])
            if a[0] == "c":
                a, c = c, a
            ok = c == C(0) and (e[1] == "Ne") == pol
            ctx.ob("bool-is-nonzero", "read_bool", b.where(), ok, "true for %s" % show(e)[:120])
            e = a
        elif e[0] == "bin" and e[1] == "Lt":
            ctx.ob("bool-is-nonzero", "read_bool", b.where(), strip(e[2]) == C(0) and pol, "true for %s" % show(e)[:120])
            e = strip(e[3])
        kind = None
    if e[0] != "from_be":
        foreign = [y for y in subterms(e) if y[0] in ("from_le", "from_ne", "from_be")]
        if foreign:
            ctx.bad("decoded-as-own-type", "read_" + k, b.where(), "decodes %s" % show(e)[:200])
        else:
            ctx.open("read_%s: value not decided: %s" % (k, show(e)[:200]))
        return 1
    okk = e[1] == n and (kind is None or str(e[3]) == kind)
    ctx.ob("decoded-as-own-type", "read_" + k, b.where(), okk, "decodes %d bytes as %s" % (e[1], e[3]))
    src = strip(e[2])
    if src[0] == "subslice" and src[2] == "Range":
        lo, hi = src[3]
        ok = strip(src[1]) == R.P and lin_eq(lo, R.E) and lin_eq(hi, ("bin", "Add", R.E, C(n)))
        ctx.ob("bytes-at-cursor", "read_" + k, b.where(), ok,
               "reads bytes %s..%s" % (show(lo)[:80], show(hi)[:80]))
    else:
        ctx.open("read_%s: source bytes not decided: %s" % (k, show(src)[:160]))
    after = R.after(fin, ch)
    moved(ctx, "read_" + k, b, R, after, C(n))
    return 1


def moved(ctx, what, b, R, after, n):
    want = ("bin", "Add", R.E, n)
    if any(x[0] in ("phi", "top", "lv") for x in subterms(after)):
        ctx.open("%s: cursor not decided: %s" % (what, show(after)[:200]))
        return
    ctx.ob("cursor-moves-by-width", what, b.where(), lin_eq(after, want),
           "cursor becomes %s" % show(after)[:160])


def writer_prim(ctx, F, W, k, n):
    x = run(F, WB + "write_" + k)
    if x is None:
        ctx.bad("anchor", "write_" + k, "", "primitive not found")
        return 0
    b, I, seq, v, fin = x
    chunks = appended(W.bytes_after(fin), W.P)
    if chunks is None or any(c[0] not in ("be", "le", "ne") for c in chunks):
        ctx.open("write_%s: appended bytes not decided: %s" % (k, show(W.bytes_after(fin))[:200]))
    else:
        vals = [strip(c[2]) for c in chunks]
        bool_ok = k == "bool" and len(chunks) == 1 and chunks[0][1] == 1 and from_bool(vals[0])
        ok = len(chunks) == 1 and chunks[0][0] == "be" and chunks[0][1] == n and (vals[0] == ("p", "a1") or bool_ok) \
            and narrow_ok(chunks[0][2], n)
        ctx.ob("encoded-as-own-type", "write_" + k, b.where(), ok,
               "appends %s" % ", ".join(show(c)[:80] for c in chunks))
    d = logic.linear(("bin", "Sub", W.pos_after(fin), W.POS))
    d = {kk: c for kk, c in d.items() if c or kk is None}
    if any(y[0] in ("phi", "top", "lv") for y in subterms(W.pos_after(fin))):
        ctx.open("write_%s: position not decided" % k)
    else:
        ctx.ob("cursor-moves-by-width", "write_" + k, b.where(), d == {None: n}, "position grows by %s" % d)
    return 1


def from_bool(v):
    v = strip(v)
    if v == ("p", "a1"):
        return True
    # if a1 {1} else {0}
    if v[0] == "phi" and strip(v[1]) == ("p", "a1"):
        return {str(l): x for l, x in v[2]} in ({"True": C(1), "False": C(0)}, {"1": C(1), "0": C(0)})
    return False


def narrow_ok(v, n):
    """no cast on the way is narrower than the value"""
    from wire import WIDTH as WW
    while v[0] in ("cast", "pl", "conv"):
        if v[0] == "cast":
            w = WW.get(str(v[1]).rstrip("!"))
            if w is not None and w < n:
                return False
        v = v[-1]
    return True


# ------------------------------------------------------------------ arrays
def prim_hooks(reader):
    h = wire.reader_hooks() if reader else wire.writer_hooks()
    pre = (RB + "read_") if reader else (WB + "write_")
    return {k: v for k, v in h.items() if k.startswith(pre) and k[len(pre):] in wire.PRIMS}


def arrays(ctx, F, R, W):
    n = 0
    for m, k in wire.WR_ARR.items():
        x = run(F, WB + m, prim_hooks(False))
        if x is None:
            continue
        n += 1
        b, I, seq, v, fin = x
        nodes = wire.norm_seq(seq)
        if m == "write_array_u8":
            ch = appended(W.bytes_after(fin), W.P)
            if ch is None:
                loop_form(ctx, m, b, I, nodes, k)
            else:
                ctx.ob("array-elements", m, b.where(), len(ch) == 1 and strip(ch[0]) == ("p", "a1"),
                       "appends %s" % [show(c)[:80] for c in ch])
            continue
        loop_form(ctx, m, b, I, nodes, k)
    for m, k in list(wire.RD_ARR.items()):
        x = run(F, RB + m, prim_hooks(True))
        if x is None:
            continue
        n += 1
        b, I, seq, v, fin = x
        nodes = wire.norm_seq(seq)
        loops = [y for y in nodes if y[0] == "loop"]
        toks = [y for l in loops for y in l[3] if y[0] == "ev"]
        if len(loops) != 1 or len(nodes) != 1 or not toks:
            ctx.open("%s: not a single counted loop" % m)
            continue
        cnt = wire.loop_count(I, loops[0])
        ok = len(toks) == 1 and toks[0][2] == "prim" and wire.kindclass(toks[0][3]) == wire.kindclass(k)
        ctx.ob("array-elements", m, b.where(), ok, "reads %s per element" % [t[2:4] for t in toks])
        if cnt is None:
            ctx.open("%s: repetition count not decided" % m)
        else:
            ctx.ob("array-count", m, b.where(), lin_eq(cnt, ("len", ("p", "a1"))), "reads %s elements" % show(cnt)[:100])
    x = run(F, RB + "read_array_u8")
    if x:
        n += 1
        b, I, seq, v, fin = x
        ch = chooser(P=R.P)
        val = okval(resolve(v, ch))
        val = strip(resolve(val, ch)) if val is not None else ("top",)
        if val[0] == "subslice" and val[2] == "Range":
            lo, hi = val[3]
            ctx.ob("bytes-at-cursor", "read_array_u8", b.where(),
                   strip(val[1]) == R.P and lin_eq(lo, R.E) and lin_eq(hi, ("bin", "Add", R.E, ("p", "a1"))),
                   "takes bytes %s..%s" % (show(lo)[:80], show(hi)[:80]))
        else:
            ctx.open("read_array_u8: bytes not decided: %s" % show(val)[:160])
        moved(ctx, "read_array_u8", b, R, R.after(fin, ch), ("p", "a1"))
    ctx.floor("array primitives", n, 10)


def loop_form(ctx, m, b, I, nodes, k):
    loops = [y for y in nodes if y[0] == "loop"]
    toks = [y for l in loops for y in l[3] if y[0] == "ev"]
    if len(loops) != 1 or len(nodes) != 1 or not toks:
        ctx.open("%s: not a single counted loop" % m)
        return
    cnt = wire.loop_count(I, loops[0])
    ok = len(toks) == 1 and toks[0][2] == "prim" and toks[0][3] == k
    ctx.ob("array-elements", m, b.where(), ok, "writes %s per element" % [t[2:4] for t in toks])
    if ok:
        v = strip(toks[0][4])
        if v[0] in ("elem", "proj"):
            ctx.ob("array-values", m, b.where(), strip(v[1]) == ("p", "a1"), "writes %s" % show(v)[:100])
    if cnt is None:
        ctx.open("%s: repetition count not decided" % m)
    else:
        ctx.ob("array-count", m, b.where(), lin_eq(cnt, ("len", ("p", "a1"))), "writes %s elements" % show(cnt)[:100])


# ------------------------------------------------------------------ strings
def split(cases, out, L):
    """the cases, cut where the code itself compares the length with a constant"""
    cuts = set()
    for y in subterms(out):
        if y[0] == "bin" and y[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            for a, b in ((y[2], y[3]), (y[3], y[2])):
                a, b = strip(a), strip(b)
                if b[0] == "c" and isinstance(b[1], int) and any(t == L for t in subterms(a)):
                    cuts |= {b[1], b[1] + 1}
        if y[0] == "phi" and strip(y[1]) == L:
            for l, _ in y[2]:
                for k in (l[1] if isinstance(l, tuple) and l and l[0] == "in" else (l,)):
                    if isinstance(k, int) and not isinstance(k, bool):
                        cuts |= {k, k + 1}
    out = []
    for lo, hi in cases:
        for k in sorted(cuts):
            if lo < k and (hi is None or k <= hi):
                out.append((lo, k - 1))
                lo = k
        out.append((lo, hi))
    return out


def strings(ctx, F, R, W):
    """write_string and read_string, case by case on the length, are inverse of each other"""
    hw = prim_hooks(False)
    x = run(F, WB + "write_string")
    if x is None:
        ctx.bad("anchor", "write_string", "", "not found")
        return
    b, I, seq, v, fin = x
    out = W.bytes_after(fin)
    cases = [(0, 0), (1, 254), (255, None)]
    L = ("len", ("p", "a1"))
    for lo, hi in split(cases, ("tup", (out, W.pos_after(fin))), L):
        def extra(c):
            return interval_choice(c, L, lo, hi)
        ch = chooser(extra)
        o = resolve(out, ch)
        chunks = appended(o, W.P)
        nm = "write_string[%s..%s]" % (lo, "" if hi is None else hi)
        if chunks is None:
            ctx.open("%s: appended bytes not decided: %s" % (nm, show(o)[:200]))
            continue
        chunks = [c for c in chunks if not (lo == hi == 0 and strip(c) == ("p", "a1"))]
        if lo == 0 and hi == 0:
            ok = len(chunks) == 1 and chunks[0][:2] == ("be", 1) and zero(chunks[0][2], L)
        elif hi is not None and hi < 255:
            ok = len(chunks) == 2 and chunks[0][:2] == ("be", 1) and lin_eq(strip(chunks[0][2]), L) \
                and strip(chunks[1]) == ("p", "a1")
        else:
            ok = len(chunks) == 3 and chunks[0][:2] == ("be", 1) and strip(chunks[0][2]) == C(255) \
                and chunks[1][:2] == ("be", 4) and lin_eq(strip(chunks[1][2]), L) and strip(chunks[2]) == ("p", "a1")
        ctx.ob("string-layout", nm, b.where(), ok, "writes %s" % [show(c)[:60] for c in chunks])
        d = logic.linear(("bin", "Sub", resolve(W.pos_after(fin), ch), W.POS))
        want = dict_sum(chunks, lo == hi == 0)
        if want is not None and not any(y[0] in ("phi", "top") for y in subterms(resolve(W.pos_after(fin), ch))):
            dd = {k: c for k, c in d.items() if c}
            if lo == hi == 0:
                dd.pop(L, None)
            ctx.ob("cursor-moves-by-width", nm, b.where(), dd == {k: c for k, c in want.items() if c},
                   "position grows by %s" % {show(k) if k else 1: c for k, c in d.items()})
    # reader
    x = run(F, RB + "read_string")
    if x is None:
        ctx.bad("anchor", "read_string", "", "not found")
        return
    b, I, seq, v, fin = x
    first = None
    for y in subterms(v):
        if y[0] == "from_be" and y[1] == 1 and first is None:
            s = strip(y[2])
            if s[0] == "subslice" and lin_eq(s[3][0], R.E):
                first = y
    if first is None:
        ctx.open("read_string: the length byte was not identified")
        return
    whole = ("tup", tuple(x for x in (v, R.after(fin, lambda c: None)) if x is not None))
    for lo, hi in split(cases[:2], whole, first) + [(255, None)]:
        nm = "read_string[%s..%s]" % (lo, "" if hi is None else hi)

        def extra(c):
            c2 = c
            if c2[0] in ("discr", "next") and any(y[0] == "call" or y[0] == "from_utf8" for y in subterms(c2)):
                return None
            bounds = (lo, hi) if hi is not None else (255, 255)
            return interval_choice(c, first, bounds[0], bounds[1])

        def extra2(c):
            r = extra(c)
            if r is not None:
                return r
            s = show(c)
            if c[0] == "discr" and "from_utf8" in s:
                return 0
            if c[0] == "bin" and c[1] in ("Eq", "Lt"):
                # a long string has at least 255 bytes
                y = [t for t in subterms(c) if t[0] == "from_be" and t[1] == 4]
                if y and hi is None:
                    return interval_choice(c, y[0], 255, None)
            return None
        ch = chooser(extra2, P=R.P)
        val = resolve(v, ch)
        # the result of the conversion handed on as it is: what it holds when it succeeded
        val = val if "from_utf8" in show(val)[:40] and val[0] != "adt" else okval(val)
        after = R.after(fin, ch)
        head = 1 if hi is not None else 5
        if hi is None:
            n = [t for t in subterms(after) if t[0] == "from_be" and t[1] == 4]
            if not n:
                ctx.open("%s: length not decided: %s" % (nm, show(after)[:200]))
                continue
            n = n[0]
            s = strip(n[2])
            okn = s[0] == "subslice" and lin_eq(s[3][0], ("bin", "Add", R.E, C(1))) and \
                lin_eq(s[3][1], ("bin", "Add", R.E, C(5)))
            ctx.ob("string-layout", nm + ":length", b.where(), okn, "length taken from %s" % show(s)[:120])
        else:
            n = first
        if any(y[0] in ("phi", "top") for y in subterms(after)):
            ctx.open("%s: cursor not decided: %s" % (nm, show(after)[:300]))
        else:
            want = ("bin", "Add", R.E, C(head))
            if not (lo == hi == 0):
                want = ("bin", "Add", want, n)
            ctx.ob("cursor-moves-by-width", nm, b.where(), lin_eq(drop0(after, n, lo == hi == 0), want),
                   "cursor becomes %s" % show(after)[:200])
        if val is None:
            ctx.open("%s: value not decided" % nm)
            continue
        src = [t for t in subterms(val) if t[0] == "subslice" and not is_len_src(t, R, head)]
        if lo == hi == 0:
            if strip(val) == ("s", "") or not src:
                ctx.ok("string-layout", nm, b.where())
            continue
        ok = bool(src) and all(strip(t[1]) == R.P and lin_eq(t[3][0], ("bin", "Add", R.E, C(head))) and
                               lin_eq(t[3][1], ("bin", "Add", ("bin", "Add", R.E, C(head)), n)) for t in src[:1])
        ctx.ob("string-layout", nm, b.where(), ok, "value taken from %s" % [show(t)[:120] for t in src[:2]])
    # nul-terminated
    x = run(F, WB + "write_cstring")
    if x:
        b, I, seq, v, fin = x
        ch = appended(W.bytes_after(fin), W.P)
        if ch is None:
            ctx.open("write_cstring: appended bytes not decided")
        else:
            ctx.ob("string-layout", "write_cstring", b.where(),
                   len(ch) == 2 and strip(ch[0]) == ("p", "a1") and ch[1][:2] == ("be", 1) and strip(ch[1][2]) == C(0)
                   or (len(ch) == 2 and strip(ch[0]) == ("p", "a1") and strip(ch[1]) in (("arr", (C(0),)), ("s", "\0"))),
                   "writes %s" % [show(c)[:60] for c in ch])


def is_len_src(t, R, head):
    hi = t[3][1] if len(t[3]) > 1 else None
    return hi is not None and (lin_eq(hi, ("bin", "Add", R.E, C(1))) or
                               (head == 5 and lin_eq(hi, ("bin", "Add", R.E, C(5))) and
                                lin_eq(t[3][0], ("bin", "Add", R.E, C(1)))))


def drop0(t, n, z):
    return logic.subst(t, n, C(0)) if z else t


def zero(v, L):
    v = strip(v)
    return v == C(0) or lin_eq(v, L)


def dict_sum(chunks, empty):
    d = {None: 0}
    for c in chunks:
        if c[0] == "be":
            d[None] += c[1]
        elif strip(c) == ("p", "a1"):
            if not empty:
                d[("len", ("p", "a1"))] = d.get(("len", ("p", "a1")), 0) + 1
        else:
            return None
    return d


def interval_choice(c, atom, lo, hi):
    """decide a comparison of `atom` with a constant from lo <= atom <= hi"""
    if c[0] in ("fld", "p", "from_be", "len", "cast"):
        if strip(c) == atom:
            return lo           # the cases are cut at every label (split)
        return None
    if c[0] != "bin" or c[1] not in ("Lt", "Eq", "Ne", "Le", "Gt", "Ge"):
        return None
    d = logic.linear(("bin", "Sub", c[2], c[3]))
    k0 = d.pop(None, 0)
    d = {k: x for k, x in d.items() if x}
    if set(d) != {atom} or abs(d[atom]) != 1:
        return None
    s = d[atom]
    l = s * lo + k0 if s > 0 else (None if hi is None else -hi + k0)
    h = (None if hi is None else hi + k0) if s > 0 else -lo + k0
    op = c[1]

    def neg(x):
        return None if x is None else not x
    if op == "Lt":
        return True if h is not None and h < 0 else False if l is not None and l >= 0 else None
    if op == "Le":
        return True if h is not None and h <= 0 else False if l is not None and l > 0 else None
    if op == "Gt":
        return True if l is not None and l > 0 else False if h is not None and h <= 0 else None
    if op == "Ge":
        return True if l is not None and l >= 0 else False if h is not None and h < 0 else None
    eq = True if l == h == 0 else False if (h is not None and h < 0) or (l is not None and l > 0) else None
    return eq if op == "Eq" else neg(eq)


# ------------------------------------------------------------------ explicit moves
def moves(ctx, F, R):
    for m, s in (("skip", 1), ("rewind", -1)):
        x = run(F, RB + m)
        if x is None:
            continue
        b, I, seq, v, fin = x
        after = R.after(fin)
        if any(y[0] in ("phi", "top") for y in subterms(after)):
            ctx.open("%s: cursor not decided" % m)
            continue
        ctx.ob("cursor-moves-by-width", m, b.where(),
               lin_eq(after, ("bin", "Add" if s > 0 else "Sub", R.E, ("p", "a1"))), "cursor becomes %s" % show(after)[:160])
    x = run(F, RB + "set_pos")
    if x:
        b, I, seq, v, fin = x
        p = resolve(buf.project(R.POS, fin), chooser(P=R.P))
        if not any(y[0] in ("phi", "top") for y in subterms(p)):
            ctx.ob("set-pos", "set_pos", b.where(), lin_eq(p, ("p", "a1")), "pos() becomes %s" % show(p)[:160])


# ------------------------------------------------------------------ trait implementations
IMPL = re.compile(r"^<(.*) as oxyroot::rbytes::(Marshaler|Unmarshaler)>::(marshal|unmarshal)$")


def impls(ctx):
    F = ctx.facts("witness")
    W, R = {}, {}
    for b in F.mono():
        m = IMPL.match(b.name)
        if m and not m[1].startswith("oxyroot::") and "dyn " not in m[1]:
            (W if m[2] == "Marshaler" else R)[m[1]] = b
    n = 0
    for t in sorted(set(W) | set(R)):
        if t in WIDTH:
            n += ctx.attempt(t, prim_impl, ctx, F, t, W.get(t), R.get(t)) or 0
    ctx.floor("primitive Marshaler/Unmarshaler", n, 22)
    nc = 0
    for t in sorted(set(W) & set(R)):
        if t in WIDTH:
            continue
        nc += 1
        ctx.attempt(t, pair, ctx, F, t, W[t], R[t])
    for t in sorted(set(R) - set(W)):
        nc += ctx.attempt(t, hashed, ctx, F, t, R[t]) or 0
    ctx.floor("container implementations", nc, 5)
    returned(ctx, F, W)


def prim_impl(ctx, F, t, wb, rb):
    n = 0
    if wb is not None:
        I, nodes, v, st = wire.run_writer(F, wb)
        toks = [x for x in nodes if x[0] == "ev"]
        ok = len(nodes) == 1 and len(toks) == 1 and toks[0][1:4] == ("W", "prim", t) and strip(toks[0][4]) == ("p", "self")
        ctx.ob("impl-one-token", "%s::marshal" % t, wb.where(), ok, "writes %s" % [show_tok(x) for x in nodes][:3])
        n += 1
    if rb is not None:
        I, nodes, res, st = wire.run_reader(F, rb)
        toks = [x for x in nodes if x[0] == "ev"]
        ok = len(nodes) == 1 and len(toks) == 1 and toks[0][1:4] == ("R", "prim", t)
        ctx.ob("impl-one-token", "%s::unmarshal" % t, rb.where(), ok, "reads %s" % [show_tok(x) for x in nodes][:3])
        if ok:
            ctx.ob("impl-value", "%s::unmarshal" % t, rb.where(), strip(res) == toks[0][4], "value becomes %s" % show(res)[:100])
        n += 1
    return n


def show_tok(x):
    return " ".join(str(y) if not isinstance(y, tuple) else show(y)[:60] for y in x[1:-1]) if x[0] == "ev" else x[0]


SKIP = {("discr", ("fld", ("p", "r"), "skip_header")): 0}


def drop_skip(nodes):
    """the branch prefix is stripped by do_skip_header only when the buffer asks for it: take the case it does not"""
    out = []
    for x in nodes:
        if x[0] == "alt":
            s = show(x[1])
            if "skip_header" in s:
                arm = logic.pick_arm(tuple(x[2]), 0)
                if arm is not None:
                    out.extend(arm)
                    continue
        out.append(x)
    return out


def pair(ctx, F, t, wb, rb):
    IW, wt, wv, wst = wire.run_writer(F, wb)
    hooks = {RB + "do_skip_header": lambda I, c: (wire.ok(wire.UNIT), c.st)}
    IR, rt, res, rst = wire.run_reader(F, rb, hooks=hooks)
    A = align.Aligner(IW, IR)
    al = A.align(wt, rt)
    short = t.replace("std::vec::", "").replace("std::string::", "")
    for u in al.undecided:
        ctx.open("%s: %s" % (short, u))
    for m in al.mismatches:
        ctx.bad("container-layout", short + ":" + m[0], rb.where(), m[1])
    if not al.mismatches:
        ctx.ob("container-layout", short, wb.where(), al.paths > 0 or bool(al.undecided), "%d tokens" % al.tokens)
    if short.startswith("Vec<"):
        toks = [x for x in wt if x[0] == "ev"]
        ok = bool(toks) and toks[0][2] == "prim" and wire.WIDTH[toks[0][3]] == 4 and \
            lin_eq(strip(toks[0][4]), ("len", ("p", "self")))
        ctx.ob("vector-count", short, wb.where(), ok, "count written: %s" % [show_tok(x) for x in toks[:1]])


def hashed(ctx, F, t, rb):
    """containers that can only be read: a 32-bit count, then that many elements (all keys before all values for maps)"""
    hooks = {RB + "do_skip_header": lambda I, c: (wire.ok(wire.UNIT), c.st)}
    IR, rt, res, rst = wire.run_reader(F, rb, hooks=hooks)
    m = re.match(r"^std::collections::Hash(Set|Map)<(.*)>$", t)
    if not m:
        return 0
    args = [x.strip() for x in m[2].split(",")][:2 if m[1] == "Map" else 1]
    toks = [x for x in rt if x[0] == "ev"]
    loops = [x for x in rt if x[0] == "loop"]
    if len(loops) != len(args) or not toks:
        ctx.ob("container-layout", t, rb.where(), False, "%d counted loops, %d expected" % (len(loops), len(args)))
        return 1
    ok = toks[0][2:4] == ("prim", "i32") and rt.index(toks[0]) == 0
    ctx.ob("container-layout", t + ":count", rb.where(), ok, "count read as %s" % show_tok(toks[0]))
    for a, l in zip(args, loops):
        tk = [x for x in l[3] if x[0] == "ev"]
        cnt = wire.loop_count(IR, l)
        ctx.ob("container-layout", "%s:%s" % (t, a), rb.where(), len(tk) == 1 and tk[0][2:4] == ("prim", a),
               "element read as %s" % [show_tok(x) for x in tk])
        if cnt is not None:
            ctx.ob("container-layout", "%s:%s:repetitions" % (t, a), rb.where(), lin_eq(cnt, toks[0][4]),
                   "%s elements" % show(cnt)[:80])
    return 1


def returned(ctx, F, W):
    """marshal reports the number of bytes it wrote"""
    for t, b in sorted(W.items()):
        if t not in WIDTH and "String" not in t:
            continue
        from absint import Interp
        I = Interp(F)
        try:
            seq, v, st = I.run(b, [("p", "self"), ("p", "w")])
        except Exception as e:
            ctx.open("%s::marshal: %s" % (t, e))
            continue
        v = okval(v)
        if v is None or st is None:
            ctx.open("%s::marshal: result not decided" % t)
            continue
        if t in WIDTH:
            if any(y[0] in ("phi", "top") for y in subterms(v)):
                ctx.open("%s::marshal: result not decided: %s" % (t, show(v)[:100]))
            else:
                ctx.ob("reported-size", "%s::marshal" % t, b.where(), lin_eq(strip(v), C(WIDTH[t])),
                       "reports %s bytes" % show(v)[:80])
