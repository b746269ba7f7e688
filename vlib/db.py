"""The streamer-info database: what populate_db inserts (read off its MIR), and ROOT's own dump of the same classes
(rdict/streamers/dump_from_root.txt, produced by ROOT and shipped with the sources)."""
import os, pickle, re
from absint import Interp, UNIT, strip
import extract

INSERT = "oxyroot::rdict::streamers::db::DbStreamer::insert"
SINFO = "oxyroot::rdict::StreamerInfo"
SELEM = "oxyroot::rdict::StreamerElement"


def raw(ctx, F):
    """values inserted by the function that fills the database"""
    p = os.path.join(ctx.dir, "db.pickle")
    if os.path.exists(p):
        try:
            with open(p, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    out = []
    unk = {}
    from scan import calls
    roots = [b for b in F.mono() if any(n == INSERT for _, _, n, _ in calls(b))]

    def ins(I, c):
        out.append(I.deref_all(c.args[1], c.st))
        return UNIT, c.st
    for b in roots:
        I = Interp(F, hooks={INSERT: ins}, max_steps=2 * 10 ** 7)
        I.run(b, [("p", "db")])
        unk.update(I.unknown)
    res = (out, unk, [b.name for b in roots])
    if not roots:
        return res
    with open(p + ".%d" % os.getpid(), "wb") as f:
        pickle.dump(res, f)
    os.replace(p + ".%d" % os.getpid(), p)
    return res


def fields(F, name):
    return [f[0] for f in F.adt_by_name[name]["variants"][0]["fields"]]


def get(F, v, name, default=None):
    """field `name` of an adt value, looked up through nested structs of the same value (named.name ...)"""
    v = peel(v)
    if v[0] != "adt":
        return default
    t = F.adt_by_name.get(v[1]) or F.adt_by_name.get(re.sub(r"<.*", "", v[1]))
    if t is None:
        return default
    var = t["variants"][v[2]]
    for f, x in zip(var["fields"], v[3]):
        if f[0] == name:
            return peel(x)
    return default


def peel(v):
    while v[0] in ("pl", "conv", "cast"):
        v = v[-1]
    return v


def find(F, v, name, depth=0):
    """first field called `name` in a nested struct value"""
    v = peel(v)
    if v[0] != "adt" or depth > 6:
        return None
    x = get(F, v, name)
    if x is not None:
        return x
    for y in v[3]:
        r = find(F, y, name, depth + 1)
        if r is not None:
            return r
    return None


def find_adt(v, name, depth=0):
    v = peel(v)
    if v[0] == "adt":
        if v[1].split("<")[0] == name:
            return v
        for y in v[3]:
            r = find_adt(y, name, depth + 1) if isinstance(y, tuple) else None
            if r is not None:
                return r
    return None


def const(v):
    if v is None:
        return None
    v = peel(v)
    return v[1] if v[0] in ("c", "s") else None


def dump_path():
    return os.path.join(extract.REPO, "oxyroot", "src", "rdict", "streamers", "dump_from_root.txt")


LINE = re.compile(r"^(\*?[A-Za-z_][\w.\[\]]*)\s+(.*)$")
# column of the value in TObject::Dump output
VCOL = 30


def parse_dump(path=None):
    """[(info dict, [element dict])] in file order"""
    out = []
    cur = None
    kind = None
    with open(path or dump_path(), errors="replace") as f:
        for ln in f:
            ln = ln.rstrip("\n")
            m = re.match(r"^==> Dumping object at: \S+ name=(.*), class=(\w+)$", ln)
            if m:
                d = {"_name": m[1], "_class": m[2]}
                if m[2] == "TStreamerInfo":
                    cur = (d, [])
                    out.append(cur)
                elif cur is not None:
                    cur[1].append(d)
                continue
            if cur is None or not ln or ln[0] == ";":
                continue
            m = re.match(r"^(\*?)([A-Za-z_][\w.]*)(\[\d+\])?\s", ln)
            if m:
                d = cur[1][-1] if cur[1] else cur[0]
                d.setdefault(m[2] + (m[3] or ""), ln[VCOL:54].rstrip() if len(ln) > VCOL else "")
                d.setdefault("_raw:" + m[2], ln)
    return out
