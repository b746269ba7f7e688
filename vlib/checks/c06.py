"""C06: every record put in a file declares its own place and lengths truthfully."""
import iofx, logic, records, split
from absint import C, show, strip
from logic import fold
from records import *

RULE = ("Every function that writes to the file is interpreted abstractly into its sequence of positioned writes. For each write "
        "that begins with a key, the tokens of the key header are compared, as integer terms and in every consistent case of "
        "their conditions, with where the header and the payload go and how long they are.")
ASSUMPTIONS = ["a record is shorter than 2^31 bytes", "the file is written without compression (the only setting implemented)"]
SLACK = 12          # directory records reserve room for pointers that may grow


def roots(ctx):
    F = ctx.facts("witness")
    io = iofx.IO(F)
    if io.why:
        ctx.bad("anchor", "file", "", io.why)
        return None, []
    bs, prim = writers(F)
    out = []
    for b in bs:
        for sp in split.receivers(F, b) if file_arg(F, b) != ("p", "self") else [("", None)]:
            r = ctx.attempt(b.rawname, Root, io, b, file_arg(F, b), b.name, sp)
            if r is not None:
                for u in r.undecided:
                    ctx.open("%s: %s" % (b.name, u))
                out.append(r)
    return io, out


def short(n):
    return n.replace("oxyroot::", "").rsplit("::", 2)[-2] + "::" + n.rsplit("::", 1)[-1]


def label(R, o, p):
    c = R.x(o.rec[2][CLASS])
    cs = iofx.cases(c, p.assume)
    if cs and all(strip(u)[0] == "s" for u, _ in cs):
        return "%s: %s record" % (short(R.label), "/".join(sorted({strip(u)[1] for u, _ in cs})))
    return "%s: record" % short(R.label)


def check(ctx):
    io, rs = roots(ctx)
    seen = {}
    for R in rs:
        for p in R.paths:
            for i, o in enumerate(p.ops):
                if o.rec is not None:
                    ctx.attempt(R.label, record, ctx, R, p, i, seen)
    for (rule, subj), (where, ok, d) in sorted(seen.items()):
        ctx.ob(rule, subj, where, ok, d)
    recs = {s for r, s in seen}
    ctx.floor("records", len(recs), 5)
    ctx.floor("writing functions", len(rs), 4)


def note(seen, rule, subj, where, r, R, what):
    k = (rule, subj)
    if r is None:
        seen.setdefault(k, (where, True, ""))
    elif k not in seen or seen[k][1]:
        seen[k] = (where, False, "%s differ by %s" % (what, say(r, R)))


def undecided(r):
    """the residual mentions something that was not modelled"""
    from absint import subterms
    if r is None:
        return False
    return any(y[0] in ("top", "mut") or (y[0] == "call" and y[1].startswith("std::num::")) for y in subterms(r[1])) or iofx.first_cond(r[1]) is not None


def record(ctx, R, p, i, seen):
    from core import site_where
    o = p.ops[i]
    T = [R.x(t) for t in o.rec[2]]
    s = label(R, o, p)
    w = R.body.where()

    def cmp(rule, a, b, kind="eq", what=""):
        r = iofx.always(kind, fold("Sub", a, b), p.assume)
        if r is not None and undecided(r):
            ctx.open("%s: %s not decided: %s" % (s, rule, say(r, R)[:160]))
            return
        note(seen, rule, s, w, r, R, what)
    if o.pos is None:
        ctx.open("%s: place not decided" % s)
        return
    cmp("declared-place", o.pos, T[SEEKKEY], what="the place of the record and the place in its header")
    cmp("declared-key-length", o.len, T[KEYLEN], what="the length of the header and the length it declares")
    if i + 1 >= len(p.ops) or p.ops[i + 1].rec is not None:
        note(seen, "payload-follows", s, w, ({}, C(1)), R, "no payload is written: expected and actual")
        return
    n = p.ops[i + 1]
    if n.pos is None:
        ctx.open("%s: place of the payload not decided" % s)
        return
    cmp("payload-follows", n.pos, fold("Add", T[SEEKKEY], T[KEYLEN]), what="the place of the payload and the end of the header")
    directory = is_dir(R, p, o, n)
    decl = fold("Sub", T[NBYTES], fold("Add", T[KEYLEN], n.len))
    if directory:
        cmp("declared-size", decl, C(0), "ge", "the declared size and the bytes written")
        cmp("declared-size-slack", C(SLACK), decl, "ge", "the allowed slack and the slack")
        cmp("declared-object-length", fold("Sub", T[OBJLEN], n.len), C(0), "ge", "the object length and the payload")
        cmp("size-is-key-plus-object", T[NBYTES], fold("Add", T[KEYLEN], T[OBJLEN]), what="size and key plus object length")
    else:
        cmp("declared-size", decl, C(0), what="the declared size and the bytes written")
        # stored as is: the reader tells a compressed payload by the two lengths being different
        cmp("declared-object-length", T[OBJLEN], n.len, what="the declared object length and the payload")
    for e in p.marshals:
        # an object stored under a key counts its positions from the start of the record
        name, v, b = e[2]
        base, ch = chunks(n.bytes)
        if len(ch) == 1 and strip(ch[0])[0] == "wire" and strip(ch[0])[1:] == (name, v) and not directory:
            pos = R.x(R.io.project(R.io.W.POS, b))
            cmp("positions-count-from-record", pos, T[KEYLEN], what="the position of the first payload byte and the key length")


def is_dir(R, p, o, n):
    """records of the directory itself: its own header and its list of keys (they reserve room)"""
    cs = iofx.cases(R.x(o.rec[2][CLASS]), p.assume)
    names = {strip(u)[1] for u, _ in cs if strip(u)[0] == "s"}
    if names == {"TDirectory"}:
        return True
    _, ch = chunks(n.bytes)
    return any(strip(c)[0] == "wire" and "TDirectoryFile as" in strip(c)[1] for c in ch)
