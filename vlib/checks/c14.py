"""C14: the basket tables and entry counts of a branch describe the baskets that were written."""
import iofx, logic, members, records, scan
from absint import C, show, strip, subterms
from logic import fold
from records import *
from checks.c06 import roots, short, undecided
from checks.c07 import verdict
from facts import norm

RULE = ("The fields of a branch and of a basket are located by matching what their marshallers write with the descriptions of "
        "TBranch and TBasket. Every function that writes basket records is interpreted abstractly, once per kind of branch and "
        "state of the basket; on every path the tables of the branch on return are compared, as terms, with the tables on entry "
        "extended by what the key headers of the basket records written on that path declare.")
ASSUMPTIONS = ["C06: a key header declares its record truthfully", "a branch is written through the functions of the library"]
LISTS = ("fBasketBytes", "fBasketEntry", "fBasketSeek")
NUMS = ("fWriteBasket", "fEntries", "fEntryNumber", "fTotBytes", "fZipBytes")


def check(ctx):
    F = ctx.facts("witness")
    base = ctx.facts()
    tb = members.Members(ctx, base, "TBranch", None)
    bk = members.Members(ctx, base, "TBasket", None)
    for m in (tb, bk):
        if m.why:
            ctx.bad("anchor", m.cls, "", m.why)
            return
    for n in LISTS:
        if tb.home(n) is None:
            ctx.bad("anchor", n, rel_(tb.body), "the values written for %s are not traced to a list of the branch" % n)
            return
    written(ctx, tb)
    io, rs = roots(ctx)
    stat = {"paths": 0, "recs": 0, "items": 0, "units": set()}
    seen = {}
    for R in rs:
        ctx.attempt(R.label, unit, ctx, io, R, tb, bk, stat, seen)
    for (rule, subj), (where, ok, d) in sorted(seen.items()):
        ctx.ob(rule, subj, where, ok, d)
    fresh(ctx, F, io, tb, bk)
    ctx.floor("functions that write baskets", len(stat["units"]), 2)
    ctx.floor("paths", stat["paths"], 16)
    ctx.floor("basket records", stat["recs"], 6)
    ctx.floor("items taken", stat["items"], 6)


def rel_(b):
    return b.where()


def written(ctx, tb):
    """the tables are written from their beginning, one element per basket (one more for the first entries)"""
    nb = tb.fields.get("fWriteBasket")
    for n, extra in (("fBasketBytes", 0), ("fBasketEntry", 1), ("fBasketSeek", 0)):
        vs = [(v, s) for v, s in tb.arrays[n] if members.source(v) is not None]
        for v, site in vs:
            v = strip(v)
            s = v
            if s[0] in ("resized", "ext"):
                s = strip(s[1])
            if s[0] != "subslice" or s[2] not in ("Range", "RangeTo"):
                ctx.open("%s: how much of the table is written is not decided: %s" % (n, show(v)[:100]))
                continue
            lo = C(0) if s[2] == "RangeTo" else s[3][0]
            hi = s[3][-1]
            ok = logic.lin_eq(lo, C(0)) and logic.lin_eq(hi, fold("Add", nb, C(extra)))
            ctx.ob("whole-table-written", n, rel_(tb.body), ok,
                   "elements %s..%s of the table are written, fWriteBasket is %s" % (show(lo), show(hi)[:80], show(nb)))
    e, m = tb.fields.get("fEntries"), tb.fields.get("fEntryNumber")
    ctx.ob("counts-from-fields", "fEntries/fEntryNumber", rel_(tb.body), e is not None and m is not None and e[0] == "fld" and
           m[0] == "fld", "the counts are not written from fields of the branch")


def at(io, t, v):
    return io.project(t, v)


def self_type(R):
    return R.body.locals[1][0]


def branch_of(F, io, R, v, struct):
    return members.find(F, io, self_type(R), v, struct)


def taken(R, p):
    """how often the iterator of the branch gave an item on this path: (yes, no)"""
    y = n = 0
    for c, l in p.assume.items():
        c = strip(c)
        if c[0] == "discr":
            c = strip(c[1])
        if c[0] == "next" and root_of(c[1]) == ("p", "self"):
            if l in (1, True):
                y += 1
            else:
                n += 1
    return y, n


def root_of(t):
    t = strip(t)
    while t[0] in ("fld", "ref"):
        t = strip(t[1]) if t[0] == "fld" else logic.unref(t)
        if t[0] == "ref":
            return t
    return t


def note(seen, rule, subj, where, ok, d):
    k = (rule, subj)
    if k not in seen or (seen[k][1] and not ok):
        seen[k] = (where, ok, "" if ok else d)


def pushed(v, init):
    """elements pushed on init, oldest first; None when the value is something else"""
    out = []
    v = strip(v)
    while v != strip(init):
        if v[0] == "push":
            out.append(v[2])
            v = strip(v[1])
        elif v[0] == "ext" and strip(v[2])[0] == "arr":
            out += list(strip(v[2])[1])[::-1]
            v = strip(v[1])
        else:
            return None
    return out[::-1]


def unit(ctx, io, R, tb, bk, stat, seen):
    F = io.F
    if R.rootp == ("p", "self") or R.rootp is None or not R.body.argc:
        return
    init = R.I and (split_value(R) or ("p", "self"))
    b0 = branch_of(F, io, R, init, tb.struct)
    if b0 is None:
        return
    fin = R.st.store.get(("H", ("p", "self")), init)
    w = R.body.where()
    s = short(R.label)
    name = "%s [%s]" % (s, R.split)
    if not any(o.rec for p in R.paths for o in p.ops) and not any(taken(R, p)[0] for p in R.paths):
        return      # does neither (the basket is missing: the function panics)
    stat["units"].add(s)
    for p in R.paths:
        stat["paths"] += 1
        ctx.attempt(name, path, ctx, io, R, p, tb, bk, init, fin, b0, w, name, stat, seen)


def split_value(R):
    return R.init


def settle(R, p, t):
    """the term on this path: merges at the top and along the spine of a list are resolved"""
    t = strip(t)
    if t[0] == "phi":
        l = logic.decide(R.x(t[1]), None, p.assume)
        if l is None:
            l = logic.decide(t[1], None, p.assume)
        x = logic.pick_arm(t[2], l) if l is not None else None
        if x is not None:
            return settle(R, p, x)
        return ("phi", t[1], tuple((l, settle(R, p, x)) for l, x in t[2]))
    if t[0] == "push":
        return ("push", settle(R, p, t[1])) + t[2:]
    if t[0] in ("upd",):
        return ("upd", t[1], tuple((k, settle(R, p, v) if isinstance(v, tuple) else v) for k, v in t[2]))
    if t[0] == "adt":
        return t[:3] + (tuple(settle(R, p, x) for x in t[3]),)
    return t


def path(ctx, io, R, p, tb, bk, init, fin, b0, w, name, stat, seen):
    F = io.F
    f = settle(R, p, fin)
    b1 = branch_of(F, io, R, f, tb.struct)
    if b1 is None:
        ctx.open("%s: the branch on return is not known" % name)
        return
    yes, no = taken(R, p)
    recs = [o for o in p.ops if o.rec is not None]
    baskets = []
    for o in recs:
        T = [R.x(t) for t in o.rec[2]]
        cs = iofx.cases(T[CLASS], p.assume)
        if all(strip(u) == ("s", "TBasket") for u, _ in cs):
            baskets.append((o, T))
        else:
            note(seen, "only-baskets", name, w, False, "a record of class %s is written by a branch" % show(T[CLASS])[:60])
    stat["recs"] += len(baskets)
    stat["items"] += yes
    k = len(baskets)

    def eq(rule, a, b, what):
        r = iofx.always("eq", fold("Sub", R.x(a), R.x(b)), p.assume)
        if r is not None and undecided(r):
            ctx.open("%s: %s not decided: %s" % (name, rule, say(r, R)[:160]))
            return
        note(seen, rule, name, w, r is None, "" if r is None else "%s: they differ by %s" % (what, say(r, R)))
    num0 = {n: at(io, tb.fields[n], b0) for n in NUMS}
    num1 = {n: settle(R, p, at(io, tb.fields[n], b1)) for n in NUMS}
    eq("one-count-per-basket", num1["fWriteBasket"], fold("Add", num0["fWriteBasket"], C(k)),
       "fWriteBasket on return and on entry plus the %d baskets written" % k)
    for n in ("fEntries", "fEntryNumber"):
        eq("one-entry-per-item", num1[n], fold("Add", num0[n], C(yes)), "%s on return and on entry plus the %d items taken" % (n, yes))
    tot = zipb = C(0)
    for o, T in baskets:
        tot = fold("Add", tot, fold("Add", T[KEYLEN], T[OBJLEN]))
        zipb = fold("Add", zipb, T[NBYTES])
    eq("bytes-counted", num1["fTotBytes"], fold("Add", num0["fTotBytes"], tot),
       "fTotBytes on return and on entry plus the sizes of the baskets")
    eq("bytes-counted", num1["fZipBytes"], fold("Add", num0["fZipBytes"], zipb),
       "fZipBytes on return and on entry plus the declared sizes of the baskets")
    lists = {}
    for n in LISTS:
        h = tb.home(n)
        l0, l1 = at(io, h, b0), settle(R, p, at(io, h, b1))
        xs = pushed(l1, l0)
        if xs is None:
            if any(y[0] in ("top", "mut", "lv") for y in subterms(l1)):
                ctx.open("%s: %s on return is not known: %s" % (name, n, show(l1)[:120]))
            else:
                note(seen, "table-extended", "%s: %s" % (name, n), w, False, "the table is replaced by %s" % show(l1)[:120])
            continue
        note(seen, "table-extended", "%s: %s" % (name, n), w, len(xs) == k,
             "%d elements are added to %s where %d baskets are written" % (len(xs), n, k))
        if len(xs) == k:
            lists[n] = xs
    for i, (o, T) in enumerate(baskets):
        if "fBasketBytes" in lists:
            eq("table-holds-size", lists["fBasketBytes"][i], T[NBYTES], "the element of fBasketBytes and the size the key declares")
        if "fBasketSeek" in lists:
            eq("table-holds-place", lists["fBasketSeek"][i], o.pos, "the element of fBasketSeek and the place of the record")
        if "fBasketEntry" in lists and k == 1:
            eq("table-holds-entries", lists["fBasketEntry"][i], num1["fEntries"],
               "the element of fBasketEntry and the entries of the branch once the basket is written")
    # ---- the basket itself
    a0, a1 = branch_of(F, io, R, init, bk.struct), branch_of(F, io, R, f, bk.struct)
    nev = bk.fields["fNevBuf"]
    n0 = at(io, nev, a0) if a0 is not None else C(0)
    if k == 1:
        v = baskets[0][0].rec[1]
        eq("entries-of-basket", R.x(at(io, nev, v)), fold("Add", n0, C(yes)),
           "fNevBuf of the basket written and the entries put in it")
        if yes:
            if a1 is None:
                ctx.open("%s: the basket on return is not known" % name)
            else:
                eq("fresh-basket", at(io, nev, a1), C(0), "fNevBuf of the basket that follows and 0")
    elif k == 0 and a1 is not None:
        eq("entries-of-basket", at(io, nev, a1), fold("Add", n0, C(yes)), "fNevBuf on return and on entry plus the items taken")
    elif k == 0 and yes:
        ctx.open("%s: the basket on return is not known" % name)
    if yes > 1 or k > 1:
        ctx.open("%s: %d items are taken and %d baskets written in one call" % (name, yes, k))
    if yes == 0 and no:
        note(seen, "nothing-after-the-last", name, w, k == 0, "a basket is written although the iterator is exhausted")


def fresh(ctx, F, io, tb, bk):
    """a new branch: no basket, no entries, the first entry of the first basket is 0"""
    n = 0
    for b in F.mono():
        if not b.defn.startswith("oxyroot::") or b.poly:
            continue
        t = F.ty(b.locals[0][0])
        if not t or t.get("k") != "adt" or not norm(t["name"]).startswith("oxyroot"):
            continue
        if not contains(F, b.locals[0][0], tb.struct) or not contains(F, b.locals[0][0], bk.struct):
            continue
        if any(contains(F, l[0], tb.struct, refs=True) and contains(F, l[0], bk.struct, refs=True)
               for l in b.locals[1:b.argc + 1]):
            continue
        n += 1
        ctx.attempt(b.name, one, ctx, F, io, b, tb, bk)
    ctx.floor("constructors of branches", n, 1)


def contains(F, ti, struct, depth=4, refs=False):
    t = F.ty(ti)
    if not t:
        return False
    if t.get("k") in ("ref", "ptr"):
        return refs and contains(F, t["ty"], struct, depth, refs)
    if t.get("k") != "adt":
        return False
    if norm(t["name"]) == struct:
        return True
    if depth == 0:
        return False
    if not norm(t["name"]).startswith(("oxyroot", "std::option")):
        return False
    return any(contains(F, z[1], struct, depth - 1) for v in t.get("variants") or () for z in v["fields"])


def leaves(v, depth=0):
    """values merged in v"""
    v = strip(v)
    if v[0] == "phi" and depth < 12:
        for _, x in v[2]:
            yield from leaves(x, depth + 1)
    else:
        yield v


def one(ctx, F, io, b, tb, bk):
    args = [("p", "a%d" % i) for i in range(1, b.argc + 1)]
    I, seq, v, st = io.run(b, args)
    w = b.where()
    s = short(b.name)
    cs = iofx.cases(v, {})
    seen = {}
    for u, a in cs:
        x = members.find(F, io, b.locals[0][0], u, tb.struct)
        if x is None:
            ctx.open("%s: the branch made is not known: %s" % (s, show(u)[:80]))
            continue
        for n in NUMS:
            y = strip(io.expand(I, at(io, tb.fields[n], x)))
            if y[0] == "fld" or any(z[0] in ("top", "mut") for z in subterms(y)):
                ctx.open("%s: %s of a new branch is not known: %s" % (s, n, show(y)[:80]))
                continue
            note(seen, "new-branch-counts", "%s: %s" % (s, n), w, y == C(0), "%s of a new branch is %s" % (n, show(y)[:80]))
        for n in LISTS:
            y = strip(at(io, tb.home(n), x))
            xs = pushed(y, ("arr", ()))
            if xs is None:
                if y[0] == "arr":
                    xs = list(y[1])
                else:
                    ctx.open("%s: %s of a new branch is not known: %s" % (s, n, show(y)[:80]))
                    continue
            want = [C(0)] if n == "fBasketEntry" else []
            note(seen, "new-branch-tables", "%s: %s" % (s, n), w, [strip(z) for z in xs] == want,
                 "%s of a new branch holds %s" % (n, [show(z)[:40] for z in xs]))
    for (rule, subj), (where, ok, d) in sorted(seen.items()):
        ctx.ob(rule, subj, where, ok, d)
