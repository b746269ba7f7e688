"""C28: opening a file reads everything from where ROOT's format puts it."""
import logic, models, wire
from absint import C, show, strip, subterms
from core import rel, site_where
from logic import fold
from readfx import Reads, Case, at, lin, unlin

RULE = ("RootFile::open is interpreted abstractly with the bytes of the file as symbols: every value decoded is a term over the "
        "places it comes from, under the assumption of a small file, of a big file with small records and of a big file with big "
        "ones. Every place in the file header, the directory header and a key header that is decoded must be a field of ROOT's "
        "layout of that header, with its width; every stretch of the file that is read must be one the headers name, all of them "
        "must be read; what is decoded as an object must be the payload of its record, with the positions in it counted from the "
        "start of the record; every key that the key list counts is kept. No directory header ROOT accepts is refused for the length "
        "of its name.")
ASSUMPTIONS = ["the file is well formed, as ROOT 4 or later writes it", "names in keys are shorter than 255 bytes"]
Z = C(0)
HDR = {False: dict(magic=(0, 4), version=(4, 4), begin=(8, 4), end=(12, 4), sfree=(16, 4), nbfree=(20, 4), nfree=(24, 4), nbname=(28, 4),
                   units=(32, 1), compress=(33, 4), sinfo=(37, 4), nbinfo=(41, 4), uuidv=(45, 2)),
       True: dict(magic=(0, 4), version=(4, 4), begin=(8, 4), end=(12, 8), sfree=(20, 8), nbfree=(28, 4), nfree=(32, 4), nbname=(36, 4),
                  units=(40, 1), compress=(41, 4), sinfo=(45, 8), nbinfo=(53, 4), uuidv=(57, 2))}
DIR = {False: dict(version=(0, 2), ctime=(2, 4), mtime=(6, 4), nbkeys=(10, 4), nbname=(14, 4), seekdir=(18, 4), seekparent=(22, 4),
                   seekkeys=(26, 4), uuidv=(30, 2)),
       True: dict(version=(0, 2), ctime=(2, 4), mtime=(6, 4), nbkeys=(10, 4), nbname=(14, 4), seekdir=(18, 8), seekparent=(26, 8),
                  seekkeys=(34, 8), uuidv=(42, 2))}
KEY = {False: dict(nbytes=(0, 4), version=(4, 2), objlen=(6, 4), datime=(10, 4), keylen=(14, 2), cycle=(16, 2), seekkey=(18, 4),
                   seekpdir=(22, 4), strings=(26, 1)),
       True: dict(nbytes=(0, 4), version=(4, 2), objlen=(6, 4), datime=(10, 4), keylen=(14, 2), cycle=(16, 2), seekkey=(18, 8),
                  seekpdir=(26, 8), strings=(34, 1))}


class Layout:
    """cells of the headers of a well-formed file of one size"""

    def __init__(self, big, bigdir, bigkeys):
        self.h = {k: at(Z, o, w) for k, (o, w) in HDR[big].items()}
        h = self.h
        self.base = fold("Add", h["begin"], h["nbname"])
        self.d = {k: at(self.base, o, w) for k, (o, w) in DIR[bigdir].items()}
        self.keyat = {"directory record": h["begin"], "free list": h["sfree"], "streamer information": h["sinfo"],
                      "key list": self.d["seekkeys"]}
        bk = {"directory record": bigkeys and bigdir, "free list": bigkeys, "streamer information": bigkeys, "key list": bigkeys}
        self.k = {n: {f: at(p, o, w) for f, (o, w) in KEY[bk[n]].items()} for n, p in self.keyat.items()}
        iv = {h["version"]: (1040000, 1999999) if big else (40000, 999999), h["begin"]: (64, None), h["sfree"]: (64, None),
              h["sinfo"]: (64, None), self.d["seekkeys"]: (64, None), self.d["nbname"]: (10, 10000), h["nbname"]: (10, 10000),
              self.d["version"]: (1001, 1009) if bigdir else (1, 9)}
        for n, k in self.k.items():
            iv[k["version"]] = (1002, 1009) if bk[n] else (2, 9)
            iv[k["keylen"]] = (26, 32767)
            iv[k["nbytes"]] = (26, None)
            iv[k["seekkey"]] = (64, None)
        self.iv = iv
        self.facts = [fold("Sub", h["end"], fold("Add", self.base, C(100))), fold("Sub", h["end"], fold("Add", h["sinfo"], C(100)))]
        self.tables = [("file header", lin(Z), HDR[big], 75 if big else 63), ("directory header", lin(self.base), DIR[bigdir], 60 if bigdir else 48)]
        self.tables += [("key of the " + n, lin(p), KEY[bk[n]], 34 if bk[n] else 26) for n, p in self.keyat.items()]
        self.bk = bk

    def payloads(self, n):
        """(place, length) pairs of the payload of a record"""
        k = self.k[n]
        for p in (self.keyat[n], k["seekkey"]):
            q = lin(fold("Add", p, k["keylen"]))
            yield q, lin(k["objlen"])
            yield q, lin(fold("Sub", k["nbytes"], k["keylen"]))


def whole(ats, base, fields):
    """whether smaller cells cover exactly the field they lie in"""
    for o, w in fields:
        g = {}
        for y in ats:
            x = offset(y[1], base)
            if x is not None and o <= x and x + y[2] <= o + w and y[2] < w:
                g[x] = y[2]
        if sum(g.values()) == w:
            return True
    return False


def known(p):
    """whether a place is written over cells of the headers alone"""
    return all(k is None or k[0] == "at" and known(k[1]) for k, c in p)


def offset(p, base):
    d = dict(p)
    for k, c in base:
        d[k] = d.get(k, 0) - c
    if any(c for k, c in d.items() if k is not None):
        return None
    return d.get(None, 0)


def same(p, base):
    return offset(p, base) == 0


def push(I, c):
    c.seq.append(("io", "push", (I.deref_all(c.args[0], c.st), c.args[1]), None, c.site))
    return models.m_push(I, c)


def check(ctx):
    F = ctx.facts("witness")
    R = Reads(F)
    if R.why:
        ctx.bad("anchor", "RBuffer", "", R.why)
        return
    bs = [b for b in F.bodies.values() if b.name == "oxyroot::riofs::file::RootFile::open"]
    if len(bs) != 1:
        ctx.bad("anchor", "RootFile::open", "", "not found")
        return
    x = ctx.attempt("RootFile::open", R.run, bs[0], [("p", "path")], hooks={"std::vec::Vec::push": push})
    if x is None:
        return
    I, seq, v, st = x
    kb = F.one("oxyroot::riofs::file::RootFile::keys")
    for name, big, bd, bk in (("small file", False, False, False), ("big file, records below 2 GB", True, False, False),
                              ("big file, records beyond 2 GB", True, True, True)):
        ctx.attempt(name, case, ctx, R, I, seq, v, bs[0], name, Layout(big, bd, bk), kb)
    ctx.floor("cells decoded", ctx.cover.get("cells", 0), 80)
    ctx.floor("stretches read", ctx.cover.get("reads", 0), 24)


def case(ctx, R, I, seq, v, body, name, L, kb):
    cs = Case(R.io, L.iv, L.facts)
    w = body.where()
    ats = {}
    reads = []
    parses = []
    pushes = []
    refusals = []
    opaque = []

    def cells(t, site):
        for y in subterms(t):
            if y[0] == "at" and y not in ats:
                ats[y] = site
    for kind, data, conds, loops, site in cs.walk(seq):
        if kind in ("refuse", "refused"):
            cells(data[0], site)
            refusals.append((kind, data, conds, site))
            continue
        if kind in ("seek", "read", "parse", "push"):
            for t in data:
                cells(t, site)
        if kind == "read":
            reads.append((data, conds, loops, site))
        elif kind == "parse":
            parses.append((data[0], conds, site))
        elif kind == "push":
            pushes.append((data, conds, loops, site))
        for c, l in conds:
            cells(c, site)
    val = cs.x(v)
    cells(val, None)
    for y in list(ats):
        for z in subterms(("tup", tuple(k for k, _ in y[1] if k is not None))):
            if z[0] == "at" and z not in ats:
                ats[z] = ats[y]
    # 1. what is decoded is a field of the layout
    n = 0
    for y, site in sorted(ats.items(), key=repr):
        for what, p, table, end in L.tables:
            o = offset(y[1], p)
            if o is None or o < 0 or o >= end + 1:
                continue
            if what.startswith("key") and o >= end and (o, y[2]) != table["strings"]:
                if o == end and y[2] not in (1,):
                    ctx.bad("field-at-its-place", "%s: %s" % (name, what), rel(site_where(site)) if site else w,
                            "%d bytes are decoded at offset %d, where the class name begins" % (y[2], o))
                continue
            if what == "directory record" and o >= end:
                continue
            f = [k for k, ow in table.items() if ow == (o, y[2])]
            n += 1
            if not f and whole(ats, p, [ow for ow in table.values() if ow[0] <= o and o + y[2] <= ow[0] + ow[1]]):
                ctx.open("%s: a field of the %s is decoded in pieces" % (name, what))
                break
            ctx.ob("field-at-its-place", "%s: %s%s" % (name, what, "." + f[0] if f else ""), rel(site_where(site)) if site else w, bool(f),
                   "%d bytes are decoded at offset %d of the %s, where ROOT has no such field" % (y[2], o, what))
            break
        else:
            if known(y[1]) and not in_payload(L, y[1]):
                ctx.bad("field-at-its-place", "%s: elsewhere" % name, rel(site_where(site)) if site else w,
                        "%d bytes are decoded at %s, which no header names" % (y[2], show(unlin(y[1]))[:200]))
    ctx.count("cells", n)
    for what, p, table, end in L.tables[2:]:
        o = [(x, y) for y in ats for x in (offset(y[1], p),) if x is not None and end <= x < end + 100]
        if o:
            lo, y = min(o, key=lambda z: z[0])
            ctx.ob("field-at-its-place", "%s: %s.class name" % (name, what), rel(site_where(ats[y])) if ats[y] else w, lo == end,
                   "the strings of the %s are decoded from offset %d, they begin at %d" % (what, lo, end))
    # 2. what is read is what the headers name
    got = set()
    for (p, ln), conds, loops, site in reads:
        q, m = lin(p), lin(ln)
        wh = rel(site_where(site))
        if not known(q) or not known(m):
            ctx.open("%s: a read of %s bytes at %s was not decided" % (name, show(ln)[:80], show(p)[:120]))
            continue
        what = named(L, q, m)
        ctx.count("reads", 1)
        ctx.ob("reads-what-the-headers-name", "%s: %s" % (name, what or "other"), wh, what is not None,
               "%s bytes are read at %s" % (show(ln)[:200], show(p)[:200]))
        if what:
            got.add(what)
    for need in ("file header", "directory record", "streamer information", "key list", "payload of the streamer information",
                 "payload of the key list"):
        if need in got or need.startswith("payload") and need[15:] + " whole" in got:
            continue
        if any(u.startswith(name + ": a read") for u in ctx.undecided):
            ctx.open("%s: read of the %s not identified" % (name, need))
        else:
            ctx.bad("everything-named-is-read", "%s: %s" % (name, need), w, "the %s is not read" % need)
    # 3. objects are decoded from the payload, with positions counted from the start of the record
    for p, conds, site in parses:
        wh = rel(site_where(site))
        _, cls, b, cur, pos, old = p[:6]
        alts = leaves(b)
        locs = [cs.loc(a) for a in alts]
        recs = {n for n in L.keyat for l in locs if l is not None for q, m in L.payloads(n) if lin(l[0]) == q}
        if len(recs) != 1:
            ctx.open("%s: bytes of a decoded object not identified" % name)
            continue
        rec = recs.pop()
        ctx.ob("object-from-its-start", "%s: %s" % (name, rec), wh, strip(cur) == Z, "decoding starts at %s" % show(cur)[:120])
        d = logic.linear(("bin", "Sub", pos, L.k[rec]["keylen"]))
        if any(y[0] in ("top", "phi") for y in subterms(pos)):
            ctx.open("%s: position of a decoded object not decided" % name)
        else:
            ctx.ob("positions-from-record-start", "%s: %s" % (name, rec), wh, not any(d.values()),
                   "the first byte of the object counts as position %s, not as the length of the key" % show(pos)[:120])
    ctx.count("objects decoded", len(parses))
    # 4. every key of the key list is kept
    keys(ctx, R, I, seq, cs, name, L, val, pushes, kb, w)
    # 5. nothing ROOT accepts is refused for the length of the name of the file
    bad = False
    for kind, (c, lab, fate), conds, site in refusals:
        d = {k: m for k, m in logic.linear(("bin", "Sub", c[2], c[3])).items() if m} if c[0] == "bin" and c[1] in ("Lt", "Le", "Gt", "Ge") \
            else None
        if d is None:
            continue
        ks = [k for k in d if k is not None]
        if ks == [L.d["nbname"]] or ks == [L.h["nbname"]]:
            lo, hi = L.iv[ks[0]]
            hit = [x for x in (lo, lo + 1, hi // 2, 1001, hi - 1, hi) if truth(c, ks[0], x) == bool(lab)]
            ctx.ob("name-length-accepted", "%s: refusal" % name, rel(site_where(site)), not hit or bool(conds),
                   "a file whose name takes %s bytes is refused; ROOT accepts 10 to 10000" % (hit[:1] or [""])[0])
            bad = bad or hit and not conds
    if not bad:
        ctx.ok("name-length-accepted", name, w, "no condition on the length of the name alone refuses a file with a name of 10 to 10000 bytes")


def truth(c, atom, x):
    def rec(t):
        t = strip(t)
        if t == atom:
            return C(x)
        if t[0] == "bin":
            return fold(t[1], rec(t[2]), rec(t[3]))
        return t
    r = rec(c)
    r = strip(r)
    if r[0] == "c":
        return bool(r[1])
    if r[0] == "bin" and strip(r[2])[0] == "c" and strip(r[3])[0] == "c":
        a, b = strip(r[2])[1], strip(r[3])[1]
        return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[r[1]]
    return None


def leaves(v):
    v = strip(v)
    if v[0] == "phi":
        return [y for _, x in v[2] for y in leaves(x)]
    return [v]


def in_payload(L, p):
    for n in L.keyat:
        for q, _ in L.payloads(n):
            if offset(p, q) is not None and offset(p, q) >= 0:
                return True
        # strings of keys and what follows them
        q = lin(L.keyat[n])
        o = offset(p, q)
        if o is not None and o >= 26:
            return True
        rest = dict(p)
        for k, c in q:
            rest[k] = rest.get(k, 0) - c
        if any(c and k is not None for k, c in rest.items()) and all(c >= 0 for k, c in rest.items() if k is not None):
            if all(k is None or not c or k[0] == "at" and k[2] in (1, 4) and c == 1 for k, c in rest.items()):
                return True
    o = offset(p, lin(L.base))
    return o is not None and o >= 30


def named(L, q, m):
    o = offset(q, lin(Z))
    if o is not None:
        n = offset(m, lin(Z))
        if n is not None and o == 0 and n >= 63:
            return "file header"
        if n is not None and 0 <= o and o + n <= 76:
            return "file header"
        return None
    if same(q, lin(L.h["begin"])):
        n = offset(m, lin(L.h["nbname"]))
        if n is not None and n >= 48:
            return "directory record"
    if same(q, lin(L.base)):
        n = offset(m, lin(Z))
        if n is not None and n >= 48:
            return "directory record"
    for n, sz in (("free list", L.h["nbfree"]), ("streamer information", L.h["nbinfo"]), ("key list", L.d["nbkeys"])):
        p = L.keyat[n]
        if same(q, lin(p)) and (same(m, lin(sz)) or same(m, lin(L.k[n]["nbytes"]))):
            return n
        if same(q, lin(p)) and same(m, lin(L.k[n]["keylen"])):
            return n
        for a, l in L.payloads(n):
            if same(q, a) and same(m, l):
                return "payload of the " + n
    if same(q, lin(L.h["begin"])):
        if same(m, lin(L.k["directory record"]["nbytes"])):
            return "directory record"
    return None


def keys(ctx, R, I, seq, cs, name, L, val, pushes, kb, w):
    if kb is None:
        ctx.bad("anchor", "RootFile::keys", "", "not found")
        return
    if val[0] == "adt" and val[2] == 0:
        val = strip(val[3][0])
    J, s2, kv, st2 = R.run(kb, [("p", "self")])
    path = strip(J.deref_all(kv, st2))
    while path[0] in ("conv", "clone"):
        path = strip(path[-1])
    kept = cs.x(R.io.project(path, val))
    kept = strip(kept)
    pay = [p for p, _ in L.payloads("key list")]
    hits = {}
    for (vec, el), conds, loops, site in pushes:
        if not loops:
            continue
        n = R.io.loop_count(I, loops[-1])
        n = strip(cs.x(n)) if n is not None else None
        d = {k: c for k, c in logic.linear(n).items() if c} if n is not None else {}
        ks = [k for k in d if k is not None and k[0] == "at" and k[1] in pay]
        if len(ks) == 1 and d[ks[0]] == 1 and set(d) <= {ks[0], None}:
            hits.setdefault(loops, []).append((ks[0], vec, el, site))
            if d.get(None):
                ctx.bad("every-key-kept", name, rel(site_where(site)), "%s keys are read of a list that counts %s" % (
                    show(n)[:100], show(ks[0])[:80]))
    if len(hits) != 1 or kept[0] != "lv":
        ctx.open("%s: how the keys are gathered was not decided" % name)
        return
    (loops, l), = hits.items()
    n, vec, el, site = l[0]
    wh = rel(site_where(site))
    ctx.ob("key-count-at-its-place", name, wh, n[2] == 4, "the count of keys is decoded from %d bytes" % n[2])
    node = [x for x in walk_nodes(seq) if x[0] == "loop" and x[1] == loops[-1]]
    k = per_round(cs, node[0][2], str(loops[-1][1]) if loops[-1][0] != "ext" else None) if node else None
    if k is None or len(k) > 50:
        ctx.open("%s: number of keys kept per key read was not decided" % name)
        return
    ctx.ob("every-key-kept", name, wh, k == {1} and len(loops) == 1, "a round of the loop over the key list keeps %s keys" % sorted(k))
    ctx.ob("keys-handed-out", name, wh, all(strip(v) == kept for _, v, _, _ in l),
           "the keys are gathered in %s, RootFile::keys hands out %s" % (show(vec)[:80], show(kept)[:80]))


def walk_nodes(seq):
    for n in seq:
        yield n
        if n[0] == "alt":
            for _, s, _ in n[2]:
                yield from walk_nodes(s)
        elif n[0] == "loop":
            yield from walk_nodes(n[2])


def per_round(cs, seq, head=None):
    """possible numbers of pushes in one round of a loop that goes on; head: the block of the loop, whose first condition counts rounds"""
    out = {0}
    for n in seq:
        k = {0}
        if n[0] == "io" and n[1] == "push":
            k = {1}
        elif n[0] == "loop":
            r = per_round(cs, n[2])
            if r != {0}:
                return None
        elif n[0] == "alt":
            nxt = strip(n[1])[0] == "next"
            lab = cs.choose(cs.x(n[1]))
            k = set()
            for l, s, f in n[2]:
                if f in ("err", "dead") or nxt and l in (0, False) or lab is not None and l != lab and l != "else":
                    continue
                if head is not None and wire.is_exit(f, head):
                    continue
                r = per_round(cs, s)
                if r is None:
                    return None
                k |= r
            k = k or {0}
            head = None
        out = {a + b for a in out for b in k}
        if len(out) > 50:
            return out
    return out
