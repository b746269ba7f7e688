"""C07: records are only appended; what is rewritten in place stays in its own reserved room."""
import itertools
import buf, iofx, logic, records, scan
from absint import C, show, strip, subterms
from logic import fold
from records import *
from checks.c06 import roots, short, label, undecided
from facts import norm

RULE = ("Every function that writes to the file is interpreted abstractly into its positioned writes. The records of a path must "
        "chain: the first at the end mark in force on entry, each next one where the previous ends, the end mark of the "
        "exit where the last ends. Every other write must be the file header below the first record, or a rewrite of "
        "the directory header at the position and within the room the creating function gave it; the fields those positions "
        "depend on must keep the value the creating function gave them.")
ASSUMPTIONS = ["a record is shorter than 2^31 bytes", "a file handle for writing comes from RootFile::create only (the writer is "
               "private)"]


def final_file(R):
    """the file when the function returns normally"""
    if R.rootp is None:
        v = buf.okval(R.v)
        return v if v is not None and strip(v)[0] in ("adt", "upd") else None
    return R.st.store.get(("H", R.rootp), R.rootp)


def paths_in(t, rootp):
    """field paths of the file mentioned by a term"""
    out = set()

    def rec(t):
        p, r = (), t
        while isinstance(r, tuple) and r and r[0] == "fld":
            p = (r[2],) + p
            r = strip(r[1])
        if p and r == rootp:
            out.add(p)
            return
        if isinstance(t, tuple):
            for x in t:
                if isinstance(x, tuple):
                    rec(x)
    rec(t)
    return out


def at_creation(io, t, R, cr):
    """the term with the fields of the file as the creating function left them"""
    f = final_file(cr)
    memo = {}

    def rec(t):
        if t == R.rootp:
            return f
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "fld":
            return io.get(rec(strip(t[1])), t[2])
        if t[0] == "bin":
            return fold(t[1], rec(t[2]), rec(t[3]))
        if t[0] == "cast":
            return rec(t[2])
        return tuple(rec(x) if isinstance(x, tuple) else x for x in t)
    return cr.x(rec(t))


def creator(rs):
    for R in rs:
        if R.rootp is None and any(o.rec for p in R.paths for o in p.ops):
            return R
    return None


def verdict(ctx, rule, subj, where, r, R, what):
    if r is not None and undecided(r):
        ctx.open("%s: %s not decided: %s" % (subj, rule, say(r, R)[:160]))
        return
    ctx.ob(rule, subj, where, r is None, "" if r is None else "%s differ by %s" % (what, say(r, R)))


def check(ctx):
    io, rs = roots(ctx)
    cr = creator(rs)
    if cr is None:
        ctx.bad("anchor", "the function that creates a file", "", "no function that makes a file handle writes its first record")
        return
    rely = {io.epath}
    n = 0
    for R in rs:
        fin = ctx.attempt(R.label, final_file, R)
        if fin is None:
            ctx.open("%s: the file on return is not known" % R.label)
        seen = set()
        for p in R.paths:
            n += len(p.ops)
            ctx.attempt(R.label, chain, ctx, io, R, p, fin, seen)
            for i, o in enumerate(p.ops):
                if o.rec is None and not (i and p.ops[i - 1].rec is not None):
                    got = ctx.attempt(R.label, inplace, ctx, io, R, p, o, cr, seen)
                    rely |= got or set()
        if fin is not None and R.rootp is not None:
            ctx.attempt(R.label, left_behind, ctx, io, R, fin)
    keeps(ctx, io, rs, cr, rely - {io.epath})
    elsewhere(ctx, io, rs, rely)
    ctx.floor("writes", n, 20)
    ctx.floor("writing functions", len(rs), 4)


def chain(ctx, io, R, p, fin, seen):
    w = R.body.where()
    rec = [o for o in p.ops if o.rec is not None]
    if not rec:
        return
    s = short(R.label)
    for o in rec:
        if o.pos is None:
            ctx.open("%s: place of a record not decided" % s)
            return
    start = None if R.rootp is None else R.x(io.end_of(R.rootp))
    end = p.ops[-1].end if p.ops and p.ops[-1].end is not None else (None if fin is None else R.x(io.end_of(fin)))
    spans = [(o.pos, fold("Add", o.pos, R.x(o.rec[2][NBYTES])), label(R, o, p)) for o in rec]

    def run(order):
        out, at = [], start
        for b, e, l in order:
            if at is not None:
                out.append(("appended-at-end", l, iofx.always("eq", fold("Sub", b, at), p.assume),
                            "the place of the record and the end of the file so far"))
            at = e
        if end is not None and at is not None:
            out.append(("end-mark-after-last", s, iofx.always("eq", fold("Sub", end, at), p.assume),
                        "the end mark left behind and the end of the last record"))
        return out
    best = run(spans)
    if any(r is not None for _, _, r, _ in best) and len(spans) <= 4:
        for o in itertools.permutations(spans):
            x = run(o)
            if all(r is None for _, _, r, _ in x):
                best = x
                break
    for rule, subj, r, what in best:
        if r is None and (rule, subj) in seen:
            continue
        seen.add((rule, subj))
        verdict(ctx, rule, subj, w, r, R, what)


def left_behind(ctx, io, R, fin):
    """whatever way the function returns, the end mark is the one on entry or the one of some sequence of writes"""
    end, start = R.x(io.end_of(fin)), R.x(io.end_of(R.rootp))
    last = [(p.ops[-1].end, p.assume) for p in R.paths if p.ops and p.ops[-1].end is not None]
    bad = None
    for u, a in iofx.cases(end, {}):
        if iofx.always("eq", fold("Sub", u, start), a) is None:
            continue
        for e, b in last:
            x = dict(a)
            x.update(b)
            if iofx.always("eq", fold("Sub", u, e), x) is None:
                break
        else:
            bad = ({}, fold("Sub", u, start))
    verdict(ctx, "end-mark-left-behind", short(R.label), R.body.where(), bad, R,
            "the end mark on return matches neither the one on entry nor the end of what was written: it and the one on entry")


def original(cr, name):
    """[(path, position of the chunk, end of the record around it)] of a marshalled part in the records of the creator"""
    out = []
    for p in cr.paths:
        for i, o in enumerate(p.ops):
            if o.rec is None or i + 1 >= len(p.ops):
                continue
            n = p.ops[i + 1]
            base, ch = chunks(n.bytes)
            at = fold("Add", n.pos, cr.x(cr.io.length(cr.I, base)))
            for c in ch:
                if strip(c)[0] == "wire" and strip(c)[1] == name:
                    out.append((p, at, fold("Add", o.pos, cr.x(o.rec[2][NBYTES]))))
                at = fold("Add", at, cr.x(cr.io.chunk(cr.I, c)))
    return out


def inplace(ctx, io, R, p, o, cr, seen):
    """a write that is not part of a new record"""
    s = short(R.label)
    w = R.body.where()
    if o.pos is None:
        ctx.open("%s: place of a write not decided" % s)
        return set()
    rely = paths_in(o.pos, R.rootp) | paths_in(o.len, R.rootp) if R.rootp else set()
    pos, ln = o.pos, o.len
    base, ch = chunks(o.bytes)
    part = strip(ch[0])[1] if len(ch) == 1 and strip(ch[0])[0] == "wire" else None
    if R is not cr:
        pos, ln = at_creation(io, pos, R, cr), at_creation(io, ln, R, cr)
    if part is not None:
        orig = original(cr, part)
        if not orig:
            ctx.bad("in-place-rewrite", "%s: %s" % (s, part), w, "rewrites something the creating function never wrote")
            return rely
        for q, at, end in orig:
            a = dict(q.assume)
            a.update(p.assume if R is cr else {})
            for rule, r, what in (("in-place-rewrite-place", iofx.always("eq", fold("Sub", pos, at), a),
                                   "the place of the rewritten header and the place it was given at creation"),
                                  ("in-place-rewrite-room", iofx.always("ge", fold("Sub", end, fold("Add", pos, ln)), a),
                                   "the end of the room and of the rewritten header")):
                k = (rule, s, part)
                if r is None and k in seen:
                    continue
                seen.add(k)
                verdict(ctx, rule, "%s: %s" % (s, part.split(" as ")[0].split("::")[-1]), w, r, R, what)
        return rely
    first = [o2.pos for q in cr.paths for o2 in q.ops if o2.rec is not None][:1]
    rely, far = set(), None
    for u, a in iofx.cases(fold("Add", o.pos, o.len), p.assume):
        if R.rootp:
            rely |= paths_in(u, R.rootp)
            u = at_creation(io, u, R, cr)
        far = far or iofx.always("ge", fold("Sub", first[0], u), a)
    for rule, r, what in (("header-below-first-record", far, "the first record and the end of what is written before it"),
                          ("header-at-start", iofx.always("eq", o.pos, p.assume),
                           "the place of the header and the start of the file")):
        k = (rule, s)
        if r is None and k in seen:
            continue
        seen.add(k)
        verdict(ctx, rule, s, w, r, R, what)
    return rely


def keeps(ctx, io, rs, cr, rely):
    """fields the places depend on are not changed by the functions that write"""
    for R in rs:
        if R.rootp is None:
            continue
        fin = final_file(R)
        for path in sorted(rely):
            if fin is None:
                continue
            v, e = R.x(io.field(fin, path)), R.x(io.field(R.rootp, path))
            if any(y[0] in ("top", "mut") for y in subterms(v)):
                if opaque_keeps(io, path):
                    ctx.ok("places-kept", "%s: %s" % (short(R.label), ".".join(path)), R.body.where(),
                           "nothing below the functions taken as opaque assigns it")
                    continue
                ctx.open("%s: %s on return is not known" % (short(R.label), ".".join(path)))
                continue
            bad = None
            for p in R.paths:
                for u, a in iofx.cases(fold("Sub", v, e), p.assume):
                    if strip(u) != C(0) and {k: c for k, c in logic.linear(u).items() if c}:
                        bad = show(u)
            ctx.ob("places-kept", "%s: %s" % (short(R.label), ".".join(path)), R.body.where(), bad is None,
                   "" if bad is None else "changes the field the place of a header depends on by %s" % bad[:200])


def assigners(io, rely):
    """{body id: [(field, block)]} of the bodies that assign, through a reference, a field the places depend on"""
    F = io.F
    want = set()
    for path in rely:
        t = F.adt_by_name.get(FILE_T)
        for f in path:
            if t is None:
                break
            want.add((norm(t["name"]), f))
            ti = [z[1] for z in t["variants"][0]["fields"] if z[0] == f]
            ty = F.ty(ti[0]) if ti else None
            t = F.adt_by_name.get(norm(ty["name"])) if ty and ty.get("k") == "adt" else None
    hits = {}
    for b in F.mono():
        for i, bl in enumerate(b.blocks):
            places = [s[1] for s in bl["s"] if s[0] == "="]
            if bl["t"]["k"] == "call":
                places.append(bl["t"]["d"])
            for pl in places:
                fs = scan.place_fields(b, pl)
                if fs and fs[-1] in want and any(e == "*" for e in pl[1:]):
                    hits.setdefault(b.id, []).append((fs[-1], i))
    return hits


def opaque_keeps(io, path):
    g = scan.call_graph(io.F)
    ids = [b.id for b in io.F.bodies.values() if b.name in iofx.STREAMER_DB]
    below = scan.reachable(g, ids)
    return bool(ids) and not any(x in below for x in assigners(io, {path}))


def elsewhere(ctx, io, rs, rely):
    """... nor by anything else that can run on the handle"""
    F = io.F
    units = {R.body.id for R in rs}
    g = scan.call_graph(F)
    for b in F.mono():
        if b.defn.startswith("oxyroot::") and root_fn_is_open(F, b):
            units.add(b.id)
    g2 = {k: v for k, v in g.items() if k not in units}
    callers = {}
    for k, v in g2.items():
        for y in v:
            callers.setdefault(y, set()).add(k)
    hits = assigners(io, rely)
    n = 0
    for bid, hs in hits.items():
        b = F.bodies[bid]
        # reached without going through a function analysed as a unit
        up, work = {bid} - units, [bid] if bid not in units else []
        top = set()
        while work:
            x = work.pop()
            cs = callers.get(x, set()) - units
            if not cs and not (set(k for k, v in g.items() if x in v)):
                top.add(x)
            for c in cs - up:
                up.add(c)
                work.append(c)
        n += 1
        for t in sorted(top):
            tb = F.bodies[t]
            if tb.poly:
                continue
            for f, i in hs:
                ctx.bad("mark-changed-elsewhere", "%s via %s" % (f[1], short(tb.name)), b.where(i),
                        "the end mark or the place of a header changes outside of the functions that write records")
    ctx.ok("mark-changed-elsewhere", "functions assigning the end mark or a header place", "", "%d looked at" % n)
    ctx.floor("functions assigning the end mark or a header place", n, 2)


def root_fn_is_open(F, b):
    return returns_file(F, b) and b.argc >= 1
