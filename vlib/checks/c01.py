"""C01: writer and reader of every class agree on the bytes."""
import re
import align, logic, scan, wire
from absint import CASTW, narrowings, show, strip, subterms
from core import site_where

RULE = ("For every class that has both a marshaller and an unmarshaller, both are turned into wire trees by abstract "
        "interpretation of their MIR (tokens with width, alternatives with their conditions, counted loops) and aligned "
        "along every path of the writer, the reader's conditions being decided by the values the writer put there. "
        "Violations: a token of a different kind or width, a different repetition count, a value the reader rejects, "
        "bytes left over, or a field that comes back under another field's name.")
ASSUMPTIONS = ["log output has no effect on the data", "the buffer primitives behave as C03/C04 establish",
               "paths whose condition is not decided are followed on both sides under the same assumption"]

MARSHAL = re.compile(r"^<(.*) as oxyroot::rbytes::Marshaler>::marshal$")
READ = re.compile(r"^<(.*) as oxyroot::rbytes::(Unmarshaler|UnmarshalerInto)>::(unmarshal|unmarshal_into)$")
# a type that is only written, and the type that reads it back
COUNTERPART = {
    "oxyroot::rcont::list::WriterList": "oxyroot::rcont::list::ReaderList",
    "oxyroot::rcont::objarray::WriterObjArray": "oxyroot::rcont::objarray::ReaderObjArray",
    "oxyroot::rtree::tree::writer::WriterTree": "oxyroot::rtree::tree::reader::ReaderTree",
    "oxyroot::rtree::wbasket::WBasket": "oxyroot::rtree::basket::Basket",
}


def bodies(F):
    W, R = {}, {}
    for b in F.mono():
        if "{closure" in b.name:
            continue
        m = MARSHAL.match(b.name)
        if m and "::" in m[1] and "dyn " not in m[1]:
            if m[1].startswith("oxyroot::"):
                W[m[1]] = b
        m = READ.match(b.name)
        if m and "::" in m[1]:
            R.setdefault(m[1], []).append(b)
    return W, R


def pairs(F):
    W, R = bodies(F)
    out = []
    for w, wb in sorted(W.items()):
        r = COUNTERPART.get(w, w)
        r = r if r in R else last_match(R, r)
        for rb in R.get(r, ()):
            out.append((w, wb, r, rb))
    return out, W, R


def last_match(R, r):
    t = r.rsplit("::", 1)[-1]
    c = [x for x in R if x.rsplit("::", 1)[-1] == t]
    return c[0] if len(c) == 1 else r


def specialise(wt):
    hv = {}
    for c, vv in wire.headers(wt):
        if c[0] == "s" and vv[0] == "c":
            hv[c[1]] = vv[1]
    return lambda n: hv.get(n)


def run_pair(F, wb, rb):
    IW, wt, wv, wst = wire.run_writer(F, wb)
    IR, rt, res, rst = wire.run_reader(F, rb, header_vers=specialise(wt))
    A = align.Aligner(IW, IR)
    r = A.align(wt, rt)
    return IW, wt, IR, rt, res, r


def fieldpath(v):
    """('a','b') for self.a.b of the writer; None otherwise"""
    out = []
    v = strip(v)
    while v[0] == "fld":
        if not str(v[2]).isdigit():
            out.append(v[2])
        v = strip(v[1])
    if v == ("p", "self") and out:
        return tuple(reversed(out))
    return None


def flatten(v, pre=()):
    """(path, value) of every field a reader result sets"""
    if v[0] == "upd" and v[1][0] in ("p", "fld", "upd", "adt", "call", "top"):
        for k, x in v[2]:
            if isinstance(k, str) and k and not k.isdigit():
                yield from flatten(x, pre + (k,))
            else:
                yield pre, x
    else:
        yield pre, v


def all_fieldpaths(nodes, out):
    """fields of the writer that are put on the wire, wherever they appear"""
    def rec(v):
        for x in subterms(v):
            fp = fieldpath(x) if x[0] == "fld" else None
            if fp:
                out.add(fp)
    for n in nodes:
        if n[0] == "ev":
            for x in n[3:-1]:
                if isinstance(x, tuple):
                    rec(x)
        elif n[0] == "alt":
            for _, s in n[2]:
                all_fieldpaths(s, out)
        elif n[0] == "loop":
            all_fieldpaths(n[3], out)
    return out


def top(v):
    return any(x[0] in ("top", "undef") for x in subterms(v))


def check(ctx):
    F = ctx.facts()
    prs, W, R = pairs(F)
    writes = None
    ntok = npath = nfield = done = 0
    for w, wb, r, rb in prs:
        short = w.rsplit("::", 1)[-1]
        kind = rb.name.rsplit("::", 1)[-1]
        subj = short + "/" + kind
        x = ctx.attempt(subj, run_pair, F, wb, rb)
        if x is None:
            continue
        IW, wt, IR, rt, res, al = x
        done += 1
        if not wire.has_tokens(wt):
            ctx.open("%s: the marshaller writes nothing (not implemented)" % short)
            continue
        for u in al.undecided:
            ctx.open("%s: %s" % (subj, u))
        ntok += al.tokens
        npath += al.paths
        ctx.ob("aligned", subj, wb.where(), al.paths > 0 or bool(al.mismatches) or bool(al.undecided),
               "%d paths, %d tokens" % (al.paths, al.tokens))
        seen = {}
        for m in al.mismatches:
            k, text, ws, rs = m[:4]
            if k == "count":
                if writes is None:
                    writes = scan.field_write_index(F)
                par = parallel(m[4] if len(m) > 4 else None, writes)
                if par is not None:
                    ok, what = par
                    ctx.ob("parallel-arrays", "%s:%s" % (short, what), site_where(ws), ok,
                           "two arrays written with one count must change together")
                    continue
                if len(m) > 4 and m[4] is not None and top(m[4]):
                    ctx.open("%s: repetition count not decided: %s" % (subj, text))
                    continue
            n = seen.get(k, 0)
            seen[k] = n + 1
            ctx.bad("layout", "%s:%s%s" % (subj, k, "" if n == 0 else "#%d" % n), site_where(ws),
                    "%s (reader at %s)" % (text, site_where(rs)))
        if not al.mismatches and al.paths:
            ctx.ok("layout", subj, wb.where(), "%d tokens on %d paths" % (al.tokens, al.paths))
        for what, where, det in detours(IW, wt, "writer"):
            ctx.bad("no-narrower-detour", "%s:%s" % (short, what), where, det)
        for what, where, det in detours(IR, rt, "reader"):
            ctx.bad("no-narrower-detour", "%s:%s" % (subj, what), where, det)
        for path, v in flatten(res):
            for k, c in narrowings(v):
                out = outer(v)
                src = src_width(c[2], False)
                if src is not None and out is not None and k < src and k < out:
                    ctx.bad("no-narrower-detour", "%s.%s" % (subj, ".".join(path)), rb.where(),
                            "a value read with %d bytes goes through %s" % (src, c[1]))
        # provenance of the fields that come back
        wf = all_fieldpaths(wt, set())
        wnames = {p[-1] for p in wf} | declared(F, w)
        for path, v in flatten(res):
            if not path or path[-1] not in wnames:
                continue
            srcs = set()
            for env, assume in al.binds[:16]:
                x = strip(logic.simp(v, env, assume))
                srcs.add(fieldpath(x) or ("?",))
            for a in arr_sources(v, al):
                srcs.add(a)
            srcs.discard(("?",))
            if not srcs:
                continue
            nfield += 1
            wrong = [s for s in srcs if s[-1] != path[-1]]
            ctx.ob("same-field", "%s.%s" % (subj, ".".join(path)), rb.where(), not wrong,
                   "field %s comes back from what was written for %s" % (
                       ".".join(path), ", ".join(".".join(s) for s in wrong)) if wrong else "")
    ctx.count("tokens aligned", ntok)
    ctx.count("paths aligned", npath)
    ctx.floor("class pairs", done, 30)
    ctx.floor("fields traced", nfield, 60)


def declared(F, name, depth=3):
    """names of the fields a struct declares, nested structs of the crate included"""
    out = set()
    t = F.adt_by_name.get(name)
    if t is None or t.get("kind") != "Struct" or not depth:
        return out
    for f, ty in t["variants"][0]["fields"]:
        if not f.isdigit():
            out.add(f)
        ft = F.types[ty]
        if ft and ft.get("k") == "adt":
            from facts import norm
            out |= declared(F, norm(ft["name"]), depth - 1)
    return out


def tokens(nodes):
    for n in nodes:
        if n[0] == "ev":
            yield n
        elif n[0] == "alt":
            for _, s in n[2]:
                yield from tokens(s)
        elif n[0] == "loop":
            yield n
            yield from tokens(n[3])


def outer(v):
    """width of the type a value ends up in, as far as its outermost cast tells"""
    while v[0] in ("pl", "conv"):
        v = v[-1]
    return CASTW.get(str(v[1]).rstrip("!")) if v[0] == "cast" else 8


def src_width(v, lens=True):
    """width of the widest thing read (or counted) inside"""
    w = None
    for x in subterms(v):
        k = CASTW.get(x[1]) if x[0] == "rd" else 8 if x[0] == "len" and lens else None
        if k and (w is None or k > w):
            w = k
    return w


def detours(I, nodes, side):
    """values that lose more on the way than the width they are stored with"""
    for n in tokens(nodes):
        if n[0] == "ev" and n[2] == "prim" and side == "writer":
            for k, c in narrowings(n[4]):
                if k < wire.WIDTH[n[3]]:
                    yield fpname(n[4]), site_where(n[-1]), "written as %s after a cast to %s" % (n[3], c[1].rstrip("!"))
        cnt = None
        if n[0] == "ev" and n[2] == "arr":
            cnt = n[5]
        elif n[0] == "loop":
            cnt = n[1][2] if n[1][0] == "arr" else wire.loop_count(I, n)
        if cnt is not None:
            for k, c in narrowings(cnt):
                w = src_width(c[2])
                if k < 4 and w is not None and w > k:
                    yield "count", site_where(n[-1]), "a repetition count goes through %s" % c[1].rstrip("!")


def fpname(v):
    fp = fieldpath(v)
    return ".".join(fp) if fp else show(strip(v))[:40]


def arr_sources(v, al):
    out = set()
    arrs = {x for x in subterms(v) if x[0] == "rd" and str(x[1]).startswith("arr:")}
    if len(arrs) != 1:
        return out
    for base, src in al.arrays:
        if base in arrs:
            s = strip(src)
            if s[0] == "elem":
                s = strip(s[1])
            fp = fieldpath(s)
            if fp:
                out.add(fp)
    return out


def parallel(d, writes):
    """a count difference that is just len(self.X.a) - len(self.X.b): sound iff nothing writes one without the other"""
    if d is None:
        return None
    lin = logic.linear(d)
    lin = {k: v for k, v in lin.items() if v != 0}
    if len(lin) != 2 or sorted(lin.values()) != [-1, 1] or None in lin:
        return None
    fps = []
    for t in lin:
        t = strip(t)
        if t[0] != "len":
            return None
        fp = fieldpath(t[1])
        if fp is None:
            return None
        fps.append(fp)
    a, b = sorted(fps)
    if a[:-1] != b[:-1]:
        return None
    owners = [o for (o, f) in writes if f == a[-1] and (o, b[-1]) in writes]
    if not owners:
        return True, "%s/%s" % (a[-1], b[-1])
    ok = all(writes[(o, a[-1])] == writes[(o, b[-1])] for o in owners)
    return ok, "%s/%s" % (a[-1], b[-1])
