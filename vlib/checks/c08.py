"""C08: what a successful close leaves behind is complete and consistent."""
import buf, iofx, logic, records, scan, wire
from absint import C, show, strip, subterms
from logic import fold
from records import *
from facts import norm
from checks.c06 import roots, short, label, undecided
from checks.c07 import assigners, creator, at_creation, final_file, opaque_keeps, verdict

RULE = ("RootFile::close is interpreted abstractly into its positioned writes on every path that returns success. The last write at "
        "position 0 must be the file header in ROOT's layout, its tokens equal, as integer terms in every consistent case, to "
        "the end mark left behind and to the place and size declared by the records written before it; the directory header "
        "likewise; the key list must count and hold one key per key of the directory; a token of 32 bits must be "
        "provably below 2^31; a flush follows the last write.")
ASSUMPTIONS = ["a record is shorter than 2^31 bytes", "a list of keys has fewer than 2^31 entries"]
HEAD = ("magic", "version", "begin", "end", "seek_free", "nbytes_free", "nfree", "nbytes_name", "units", "compress", "seek_info",
        "nbytes_info", "uuid_version", "uuid")
SMALL = [4, 4, 4, 4, 4, 4, 4, 4, 1, 4, 4, 4, 2, 16]
BIG = [4, 4, 4, 8, 8, 4, 4, 4, 1, 4, 8, 4, 2, 16]
# TDirectoryFile: version, ctime, mtime, nbyteskeys, nbytesname, seekdir, seekparent, seekkeys
DVERS, DCT, DMT, DNKEYS, DNNAME, DSEEK, DPARENT, DKEYS = range(8)
MAX32 = (1 << 31) - 1


def header_tokens(R, o):
    """[(width, value)] of a write made of plain chunks"""
    base, ch = chunks(o.bytes)
    out = []
    for c in [base] + ch:
        c = strip(c)
        if c == () or c in (("arr", ()), ("s", "")):
            continue
        if c[0] == "be":
            out.append((c[1], c[2]))
        elif c[0] == "s":
            out.append((len(c[1].encode()), c))
        elif c[0] in ("repn", "arr", "rep"):
            n = R.x(logic.length(c))
            if n[0] != "c":
                return None
            out.append((n[1], c))
        elif c[0] == "call" and c[1].endswith("::new") and not c[2]:
            continue
        else:
            return None
    return out


def check(ctx):
    F = ctx.facts("witness")
    io, rs = roots(ctx)
    cr = creator(rs)
    closers = [R for R in rs if short(R.label) == "RootFile::close"]
    if len(closers) != 1 or cr is None:
        ctx.bad("anchor", "RootFile::close", "", "RootFile::close was not found among the functions that write records")
        return
    R = closers[0]
    k = constants(io, rs, cr)
    ctx.cover["fields constant since creation"] = sorted(".".join(x) for x in k)
    for p in R.paths:
        settle(R, p, k)
    live = [p for p in R.paths if p.ops]
    ctx.floor("paths through close that write", len(live), 1)
    for p in live:
        ctx.attempt("RootFile::close", path, ctx, io, R, cr, p)
    ctx.floor("obligations per path", len([o for o in ctx.obl if o[0] != "coverage-floor"]) // max(1, len(live)), 16)
    silent(ctx, R)


def scalars(F, ti, path=()):
    """paths of the integer fields of a struct type"""
    ty = F.ty(ti)
    if not ty or ty.get("k") != "adt":
        return
    a = F.adt_by_name.get(norm(ty["name"]))
    if a is None or len(a["variants"]) != 1:
        return
    for z in a["variants"][0]["fields"]:
        t = F.ty(z[1])
        if t and t.get("k") in ("int", "uint", "prim") or F.tstr(z[1]) in INTS:
            yield path + (z[0],)
        elif t and t.get("k") == "adt" and norm(t["name"]).startswith("oxyroot::"):
            yield from scalars(F, z[1], path + (z[0],))


INTS = {a + b for a in "iu" for b in ("8", "16", "32", "64", "size")}


def constants(io, rs, cr):
    """{field path: value} of the fields of the file that creation sets to a constant and nothing changes afterwards"""
    F = io.F
    f = final_file(cr)
    units = {R.body.id for R in rs}
    for b in F.mono():
        if b.defn.startswith("oxyroot::") and returns_file(F, b) and b.argc >= 1:
            units.add(b.id)
    below = scan.reachable(scan.call_graph(F), units)
    out = {}
    ti = [i for i, t in enumerate(F.types) if t and t.get("k") == "adt" and norm(t["name"]) == FILE_T][0]
    for path in scalars(F, ti):
        v = cr.x(io.field(f, path))
        v = strip(v)
        if v[0] != "c":
            continue
        kept = True
        for R in rs:
            if R.rootp is None:
                continue
            fin = final_file(R)
            if fin is None:
                kept = False
                break
            a, b = R.x(io.field(fin, path)), R.x(io.field(R.rootp, path))
            if a != b and not (any(y[0] in ("top", "mut") for y in subterms(a)) and opaque_keeps(io, path)):
                kept = False
                break
        if kept and all(x in below for x in assigners(io, {path})):
            out[path] = v
    return out


def settle(R, p, k):
    """replace the constant fields in everything known about a path"""
    io = R.io
    terms = {}
    for path, v in k.items():
        t = R.rootp
        for f in path:
            t = ("fld", t, f)
        terms[t] = v
    memo = {}

    def rec(t):
        if not isinstance(t, tuple) or not t:
            return t
        m = memo.get(id(t))
        if m is not None and m[0] is t:
            return m[1]
        if t in terms:
            r = terms[t]
        elif t[0] == "bin":
            r = fold(t[1], rec(t[2]), rec(t[3]))
        else:
            r = tuple(rec(x) if isinstance(x, tuple) else x for x in t)
        memo[id(t)] = (t, r)
        return r
    p.const = rec
    p.assume = {c: l for c, l in ((rec(c), l) for c, l in p.assume.items()) if c[0] != "c"}


def eqs(ctx, rule, R, p, a, b, what, kind="eq"):
    r = iofx.always(kind, p.const(fold("Sub", a, b)), p.assume)
    verdict(ctx, rule, "RootFile::close", R.body.where(), r, R, what)


def text(R, p, t):
    cs = iofx.cases(R.x(t), p.assume)
    xs = {strip(u)[1] if strip(u)[0] == "s" else None for u, _ in cs}
    return xs.pop() if len(xs) == 1 else None


def path(ctx, io, R, cr, p):
    w = R.body.where()
    S = "RootFile::close"
    recs = []
    for i, o in enumerate(p.ops):
        if o.rec is not None:
            T = [R.x(t) for t in o.rec[2]]
            recs.append((o, T, p.ops[i + 1] if i + 1 < len(p.ops) else None))
    # ---- roles
    info = [x for x in recs if text(R, p, x[1][NAME]) == "StreamerInfo"]
    keys = [x for x in recs if x[2] is not None and loop_chunk(R, x[2].bytes, KEYM)]
    free = [x for x in recs if x not in info and x not in keys]
    for what, l in (("streamer information", info), ("key list", keys), ("free segments", free)):
        ctx.ob("records-written", what, w, len(l) == 1, "%d records of this kind are written on a path that succeeds" % len(l))
    if not (len(info) == len(keys) == len(free) == 1):
        return
    info, keys, free = info[0], keys[0], free[0]
    # ---- flushed
    order = [e[1] for e in flat_events(p.evs) if e[1] in ("write", "flush", "write-some")]
    last = max([i for i, k in enumerate(order) if k != "flush"], default=-1)
    ctx.ob("flushed-before-success", S, w, "flush" in order[last + 1:], "returns success with written bytes not flushed to the file")
    # ---- file header
    heads = [(i, o) for i, o in enumerate(p.ops) if o.pos is not None and header_tokens(R, o) and
             header_tokens(R, o)[0][1] == ("s", "root")]
    if not heads:
        ctx.ob("file-header-written", S, w, False, "no write of the file header on a path that succeeds")
        return
    hi, h = heads[-1]
    ctx.ob("file-header-written", S, w, iofx.always("eq", h.pos, p.assume) is None and hi == len(p.ops) - 1,
           "the header must be the last write, at position 0")
    toks = header_tokens(R, h)
    ws = [a for a, _ in toks]
    big = ws == BIG
    ctx.ob("file-header-layout", "%s/%s" % (S, "big" if big else "small"), w, ws in (SMALL, BIG),
           "widths %s are neither the small nor the big layout of the file header" % (ws,))
    if ws not in (SMALL, BIG):
        return
    T = {k: R.x(v) for k, (_, v) in zip(HEAD, toks)}
    if big:
        eqs(ctx, "version-marks-layout", R, p, T["version"], C(1000000), "the version and the mark of the big layout", "ge")
        eqs(ctx, "units", R, p, T["units"], C(8), "the pointer size announced and 8")
    else:
        eqs(ctx, "version-marks-layout", R, p, C(999999), T["version"], "the mark of the big layout and the version", "ge")
        for k in ("end", "seek_free", "seek_info"):
            eqs(ctx, "pointers-not-truncated", R, p, C(MAX32), T[k], "what 32 bits can hold and the %s stored" % k, "ge")
    end = R.x(io.end_of(p.ops[-1].ev[3]))
    eqs(ctx, "end-of-file", R, p, T["end"], end, "the end of file stored and the end mark")
    for k, n, x in (("seek_free", "nbytes_free", free), ("seek_info", "nbytes_info", info)):
        eqs(ctx, k, R, p, T[k], x[1][SEEKKEY], "the place stored in the header and the place of the record")
        eqs(ctx, n, R, p, T[n], x[1][NBYTES], "the size stored in the header and the size of the record")
    first = [o.pos for q in cr.paths for o in q.ops if o.rec is not None][0]
    eqs(ctx, "begin", R, p, at_creation(io, T["begin"], R, cr), first, "the begin stored and the place of the first record")
    count(ctx, R, p, "nfree", T["nfree"], free[2], None)
    # ---- directory header
    dirs = [o for o in p.ops if (lambda ch: len(ch) == 1 and strip(ch[0])[0] == "wire" and "TDirectoryFile" in
                                 strip(ch[0])[1])(chunks(o.bytes)[1]) and o.rec is None]
    ctx.ob("directory-header-rewritten", S, w, len(dirs) >= 1, "the directory header is not rewritten")
    if dirs:
        d = dirs[-1]
        c = strip(chunks(d.bytes)[1][0])
        D = io.io_tokens(c[1]) if hasattr(io, "io_tokens") else R.io_tokens(c[1])
        if D is None or len(D) < 8:
            ctx.open("directory header tokens not known")
        else:
            D = [(k, R.x(io.project(v, c[2]))) for k, v in D]
            eqs(ctx, "dir-seek-keys", R, p, plain(D[DKEYS][1]), keys[1][SEEKKEY], "the key list place stored and the record's")
            eqs(ctx, "dir-nbytes-keys", R, p, D[DNKEYS][1], keys[1][NBYTES], "the key list size stored and the record's")
            eqs(ctx, "dir-nbytes-name", R, p, at_creation(io, T["nbytes_name"], R, cr), at_creation(io, D[DNNAME][1], R, cr),
                "the name length in the two headers")
            eqs(ctx, "dir-nbytes-name", R, p, fold("Add", at_creation(io, T["begin"], R, cr), at_creation(io, T["nbytes_name"], R,
                                                                                                       cr)),
                at_creation(io, d.pos, R, cr), "where the reader looks for the directory header and where it is")
            # narrowed only when it fits
            narrowed(ctx, io, R, p, c)
    count(ctx, R, p, "key-count", None, keys[2], KEYM)


def plain(t):
    return t


def narrowed(ctx, io, R, p, c):
    """the 32-bit arm of each place in the directory header is taken only when the place fits"""
    name, val = c[1], c[2]
    n = 0
    for node in io.tree(name)[1]:
        if node[0] != "alt":
            continue
        for lab, s in node[2]:
            for e in s:
                if e[0] == "ev" and e[2] == "prim" and e[3] == "i32":
                    cond = R.x(io.project(node[1], val))
                    v = R.x(io.project(e[4], val))
                    # places of the directory itself lie below the first 2 GB: they were stored at creation
                    n += 1
                    if p_creation(io, v, R):
                        continue
                    arms = tuple((l, fold("Sub", C(MAX32), v) if l == lab else C(0)) for l, _ in node[2])
                    r = iofx.always("ge", p.const(R.x(("phi", cond, arms))), p.assume)
                    verdict(ctx, "pointers-not-truncated", "RootFile::close: directory header", R.body.where(), r, R,
                            "what 32 bits can hold and the place stored")
    ctx.floor("32-bit places of the directory header", n, 1)


def p_creation(io, v, R):
    """a field of the directory that only creation sets (C07: places-kept)"""
    v = strip(v)
    p = ()
    while v[0] == "fld":
        p = (v[2],) + p
        v = strip(v[1])
    return v == R.rootp and bool(p)


def flat_events(evs):
    for e in evs:
        if e[0] == "loop":
            for q, _ in e[2]:
                yield from flat_events(q)
        else:
            yield e


def loop_chunk(R, b, name=None):
    """(loop id, chunk) when the bytes end with one chunk per iteration of a loop"""
    base, ch = chunks(b)
    for t in [strip(b), base]:
        x, f = t, ()
        while x[0] == "fld":
            f = (x[2],) + f
            x = strip(x[1])
        if x[0] == "lv" and x in R.I.lvdefs:
            back = R.io.field(R.I.lvdefs[x]["back"], f)
            for y in subterms(back):
                if y[0] == "ext" and strip(y[2])[0] == "wire" and (name is None or strip(y[2])[1] == name):
                    return x[1][0], strip(y[2]), R.io.field(R.I.lvdefs[x]["init"], f)
    return None


def count(ctx, R, p, rule, stored, op, name):
    S = "RootFile::close"
    w = R.body.where()
    lc = loop_chunk(R, op.bytes, name)
    if lc is None:
        ctx.open("%s: the list is not written by a loop over it" % rule)
        return
    lid, chunk, init = lc
    n = R.io.loop_count(R.I, lid)
    if n is None:
        ctx.open("%s: number of iterations not decided" % rule)
        return
    n = R.x(n)
    el = strip(chunk[2])
    if stored is None:
        b, ch = chunks(init)
        ch = ([] if b[0] != "be" else [b]) + ch
        if len(ch) != 1 or strip(ch[0])[0] != "be" or strip(ch[0])[1] != 4:
            ctx.ob(rule, S, w, False, "the list does not begin with a 32-bit count")
            return
        stored = R.x(strip(ch[0])[2])
    eqs(ctx, rule, R, p, stored, n, "the count stored and the number of elements written")
    base = [y for y in [el] + list(subterms(el)) if y[0] == "elem"]
    if base:
        eqs(ctx, rule + "-complete", R, p, logic.length(base[0][1]), n, "the length of the list and the number of elements written")
        src = R.x(base[0][1])
        if name is not None:
            # the key list lists the keys of the directory of this file
            q = src
            f = ()
            while q[0] == "fld":
                f = (q[2],) + f
                q = strip(q[1])
            ctx.ob(rule + "-source", S, w, q == R.rootp and el[0] == "elem",
                   "the list written is %s, element %s" % (show(src)[:80], show(el)[:80]))


def silent(ctx, R):
    """no success without writing: a path that returns normally and writes nothing"""
    n = [p for p in R.paths if not p.ops]
    ctx.ob("success-means-written", "RootFile::close", R.body.where(), not n, "%d paths return without writing" % len(n))
