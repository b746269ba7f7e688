"""C27: a basket of entries of varying size records where every entry starts."""
import re
import buf, iofx, logic, members, records, scan
from absint import C, canon_cond, show, strip, subterms
from logic import fold
from records import *
from checks.c06 import roots, short, undecided
from checks.c07 import at_creation, creator
from checks.c14 import at, branch_of, contains, note, pushed, settle, taken
from facts import norm

RULE = ("Every function that puts entries in baskets or writes baskets is interpreted abstractly, once per kind of branch and "
        "state of the basket. The offset table on return, the bytes appended to the data of the basket before it is written and "
        "fLast are compared, term by term and in every consistent case, with the key length declared by the record and the "
        "length of the data; the size of the table is an inductive invariant, checked at creation and on every path.")
ASSUMPTIONS = ["C06: a key header declares its record truthfully", "C07: the end mark never moves back",
               "a file handle for writing comes from RootFile::create only"]
INVARIANT = ("table-has-room", "table-size-kept", "room-for-next-entry", "table-size-at-creation")
MARSH = "<%s as oxyroot::rbytes::Marshaler>::marshal"


def check(ctx):
    F = ctx.facts("witness")
    base = ctx.facts()
    tb = members.Members(ctx, base, "TBranch", None)
    bk = members.Members(ctx, base, "TBasket", None)
    for m in (tb, bk):
        if m.why:
            ctx.bad("anchor", m.cls, "", m.why)
            return
    io, rs = roots(ctx)
    X = Finder(io, tb, bk, rs)
    if X.why:
        ctx.bad("anchor", "TBasket", bk.body.where(), X.why)
        return
    seen = {}
    stat = {"recs": 0, "items": 0, "tables": 0, "units": set()}
    X.fresh = None
    X.direct = []
    for R in sorted(rs, key=lambda R: str(R.split).find("None") < 0):
        ctx.attempt(R.label, unit, ctx, X, R, stat, seen)
    kinds(ctx, F, io, X, seen)
    for (rule, subj), (where, ok, d) in sorted(seen.items()):
        if rule in INVARIANT and X.direct and all(X.direct):
            continue        # the table has room whatever its state was
        ctx.ob(rule, subj, where, ok, d)
    ctx.floor("functions that fill or write baskets", len(stat["units"]), 2)
    ctx.floor("basket records", stat["recs"], 6)
    ctx.floor("offset tables written", stat["tables"], 2)
    ctx.floor("items taken", stat["items"], 6)


class Finder:
    """where the parts of a basket are kept"""
    def __init__(self, io, tb, bk, rs):
        self.io, self.tb, self.bk, self.why = io, tb, bk, None
        self.cr = creator(rs)
        if self.cr is None:
            self.why = "no function creates a file"
            return
        kl = bk.fields["fKeylen"]
        self.keylen = strip(kl)
        self.key, self.keyfields = None, []
        rv = [y for y in subterms(bk.fields["fVersion"]) if y[0] == "fld"]
        self.rvers = next((y[2] for y in leaves_(bk.fields["fVersion"]) if y[0] == "fld"), None)
        self.marsh = MARSH % bk.struct
        F = io.F
        # the lists and the byte buffer of the struct, by type
        self.lists, self.bufs = [], []

        def walk(ti, t, depth):
            ty = F.ty(ti)
            if not ty or depth > 4:
                return
            if ty.get("k") == "adt" and norm(ty["name"]).startswith("oxyroot"):
                if norm(ty["name"]) == buf.WB.rstrip(":"):
                    self.bufs.append(t)
                    return
                if norm(ty["name"]) == norm(F.ty(F.one(KEYM).locals[1][0])["ty"] and F.ty(F.ty(F.one(KEYM).locals[1][0])["ty"])["name"]):
                    self.key = t
                    self.keyfields = [z[0] for z in ty["variants"][0]["fields"]]
                    return
                if ty["kind"] != "Enum":
                    for f, fti in ty["variants"][0]["fields"]:
                        walk(fti, ("fld", t, f), depth + 1)
            elif ty.get("k") == "adt" and norm(ty["name"]).endswith("Vec") and "i32" in F.tstr(ti):
                self.lists.append(t)
        a = F.adt_by_name.get(bk.struct)
        for f, fti in a["variants"][0]["fields"]:
            walk(fti, ("fld", ("p", "self"), f), 0)
        if len(self.lists) != 1 or len(self.bufs) != 1:
            self.why = "offset table or data buffer of a basket not found: %d lists, %d buffers" % (len(self.lists), len(self.bufs))
            return
        self.offs = self.lists[0]
        self.data = io.project(io.W.P, self.bufs[0]) if io.W.P != ("p", "self") else self.bufs[0]


def leaves_(t):
    t = strip(t)
    if t[0] == "phi":
        for _, x in t[2]:
            yield from leaves_(x)
    else:
        yield t


def roots_of(t):
    while t[0] == "fld":
        t = strip(t[1])
    return t


def unit(ctx, X, R, stat, seen):
    io = X.io
    F = io.F
    if R.rootp == ("p", "self") or R.rootp is None or not R.body.argc:
        return
    init = R.init or ("p", "self")
    if branch_of(F, io, R, init, X.tb.struct) is None:
        return
    if not any(o.rec for p in R.paths for o in p.ops) and not any(taken(R, p)[0] for p in R.paths):
        return
    s = short(R.label)
    stat["units"].add(s)
    fin = R.st.store.get(("H", ("p", "self")), init)
    name = "%s [%s]" % (s, R.split[0] if isinstance(R.split, tuple) else R.split)
    F = io.F
    fresh = X.fresh
    if branch_of(F, io, R, init, X.bk.struct) is None:
        fresh = None
        for p in R.paths:
            y, n = taken(R, p)
            if n and not y:
                fresh = branch_of(F, io, R, settle(R, p, fin), X.bk.struct)
        X.fresh = X.fresh or fresh
    for p in R.paths:
        ctx.attempt(name, path, ctx, X, R, p, init, fin, name, stat, seen, fresh)


def spine_cases(R, t, a, depth=0):
    """[(term, assumptions)]: merges at the top and below element updates are split"""
    t = strip(t)
    if t[0] == "upd" and depth < 10:
        return [(("upd", u) + t[2:], b) for u, b in spine_cases(R, t[1], a, depth + 1)]
    if t[0] != "phi" or depth >= 10:
        return [(t, a)]
    c = R.x(t[1])
    l = logic.decide(c, None, a)
    if l is None:
        l = logic.decide(t[1], None, a)
    if l is not None:
        x = logic.pick_arm(t[2], l)
        return [] if x is None else spine_cases(R, x, a, depth + 1)
    out = []
    for l, x in t[2]:
        b = dict(a)
        if isinstance(l, bool):
            k, pol = canon_cond(c, True)
            b[k] = l == pol
        else:
            b[c] = l
        if not iofx.refuted(iofx.constraints(b)):
            out += spine_cases(R, x, b, depth + 1)
    return out


class Unknown(Exception):
    pass


def peel(R, t, a):
    """(list below, [(index, value)] of single elements set, oldest first, amount every element grew by) of a list"""
    sets, shift = [], C(0)
    t = strip(t)
    while t[0] == "upd":
        for k, v in t[2]:
            if not (isinstance(k, tuple) and k[0] == "elem"):
                raise Unknown("a part of the table is changed: %s" % show(v)[:80])
            if strip(k[1]) in (("it",), "it") or k[1] == ("it",):
                shift = fold("Add", shift, grown(R, v, t[1], a))
            else:
                sets.append((k[1], v))
        t = strip(t[1])
    return t, sets[::-1], shift


def grown(R, v, lst, a):
    """by how much every element of the list was raised"""
    v = strip(v)
    if v[0] == "phi":
        cs = spine_cases(R, v, a)
        arms = [grown(R, u, lst, b) for u, b in cs]
        if all(x == arms[0] for x in arms):
            return arms[0]
        return ("phi", v[1], tuple((l, grown(R, x, lst, a)) for l, x in v[2]))
    if v[0] == "lv" and v in R.I.lvdefs:
        d = R.I.lvdefs[v]
        init, back = strip(d["init"]), d["back"]
        if init[0] != "elem":
            raise Unknown("elements changed in a loop: %s" % show(v)[:60])
        n = R.io.loop_count(R.I, v[1][0])
        if n is None or not logic.lin_eq(R.x(n), R.x(("len", init[1]))):
            raise Unknown("a loop over the table whose length is not decided")
        x = R.x(back) if back[0] == "phi" else back
        return grown_by(x, v)
    return grown_by(v, None)


def grown_by(v, atom):
    d = dict(logic.linear(v))
    at = [k for k, c in d.items() if c == 1 and k is not None and (k == atom or (atom is None and k[0] == "elem"))]
    if len(at) != 1:
        raise Unknown("how an element changes is not decided: %s" % show(v)[:80])
    d.pop(at[0])
    return iofx.unlinear(d)


def content(R, b):
    """chunks of a byte string; what is appended once per element of a list is one ("each", chunk, count)"""
    b = strip(b)
    if b[0] == "ext":
        return content(R, b[1]) + [strip(b[2])]
    if b[0] == "lv" and b in R.I.lvdefs:
        d = R.I.lvdefs[b]
        back = strip(d["back"])
        if back[0] == "ext" and strip(back[1]) == b and strip(back[2])[0] == "be":
            return content(R, d["init"]) + [("each", strip(back[2]), R.io.loop_count(R.I, b[1][0]))]
    return [("base", b)]


def grown_from(R, b, data0):
    """the data is what was there on entry, with entries appended"""
    b = strip(b)
    for _ in range(4):
        if b == strip(data0):
            return True
        if b[0] == "lv" and b in R.I.lvdefs:
            b = strip(R.I.lvdefs[b]["init"])
        elif b[0] == "ext":
            b = strip(b[1])
        else:
            return False
    return False


def worlds(X, R, p, T, a0, fresh, some):
    """[(assumptions, substitutions)]: the combinations of file and basket state that can occur together"""
    io = X.io
    key0 = io.project(X.key, a0)
    rv0 = io.get(key0, X.rvers)
    out = []
    if not some:
        cs = iofx.cases(("tup", R.x(T[RVERS]) if T else C(0), R.x(rv0)), p.assume)
        return [(a, []) for u, a in cs if possible(X, R, a)]
    base = []
    fk = io.project(X.key, fresh)
    for f in X.keyfields:
        v = strip(io.get(fk, f))
        if v[0] in ("c", "s"):
            base.append((strip(io.get(key0, f)), v))
    vals = sorted({strip(u)[1] for u, _ in iofx.cases(R.x(io.get(fk, X.rvers)), {}) if strip(u)[0] == "c"})
    L = R.x(io.wirelen(R.I, X.marsh, a0))
    for u, a in (iofx.cases(R.x(T[RVERS]), p.assume) if T else [(None, dict(p.assume))]):
        if not possible(X, R, a):
            continue
        for r in vals:
            if u is not None and strip(u)[0] == "c" and r > 1000 >= strip(u)[1]:
                continue        # C07: the end mark never moves back
            subs = base + [(strip(rv0), C(r))]
            l = L
            for x, y in subs:
                l = logic.subst(l, x, y)
            out.append((a, [(strip(io.project(X.keylen, a0)), logic.simp(l))] + subs))
    return out


def possible(X, R, a):
    """conditions on fields of the file other than the end mark agree with their values at creation"""
    io = X.io
    for c, l in a.items():
        if not isinstance(l, bool) or not any(y == R.rootp for y in subterms(c)):
            continue
        if any(fields_(y) == io.epath for y in subterms(c)):
            continue
        v = at_creation(io, c, R, X.cr)
        k, pol = canon_cond(v, True)
        if k[0] == "c" and bool(k[1]) != (l == pol):
            return False
    return True


def fields_(t):
    return iofx.fields(t)[0] if isinstance(t, tuple) and t and t[0] == "fld" else None


def sub(t, subs):
    for x, y in subs:
        t = logic.subst(t, x, y)
    return logic.simp(t)


def path(ctx, X, R, p, init, fin, name, stat, seen, fresh):
    io = X.io
    F = io.F
    w = R.body.where()
    f = settle(R, p, fin)
    a0 = branch_of(F, io, R, init, X.bk.struct)
    some = a0 is not None
    if not some:
        a0 = fresh
    if a0 is None or fresh is None:
        ctx.open("%s: the basket in use is not known" % name)
        return
    a1 = branch_of(F, io, R, f, X.bk.struct)
    yes, no = taken(R, p)
    stat["items"] += yes
    recs = [o for o in p.ops if o.rec is not None]
    stat["recs"] += len(recs)
    if yes > 1 or len(recs) > 1:
        ctx.open("%s: %d items are taken and %d baskets written in one call" % (name, yes, len(recs)))
        return
    P = io.project
    offs0, data0, klen0 = P(X.offs, a0), P(X.data, a0), P(X.keylen, a0)
    nev0, size0 = P(X.bk.fields["fNevBuf"], a0), P(X.bk.fields["fNevBufSize"], a0)
    empty, pol = canon_cond(("bin", "Eq", R.x(logic.length(offs0)), C(0)), True)

    if not some and not recs:
        for u, b in iofx.cases(fold("Sub", R.x(klen0), R.x(io.wirelen(R.I, X.marsh, a0))), p.assume):
            r = iofx.always("eq", u, b)
            if r is not None and undecided(r):
                ctx.open("%s: the key length of a new basket is not decided: %s" % (name, say(r, R)[:160]))
                break
            note(seen, "key-length-of-new-basket", name, w, r is None, "" if r is None else
                 "the key length of a new basket and the length of its key header differ by %s" % say(r, R))

    for mode in (False, True):
        a = dict(p.assume)
        if empty[0] == "c":
            if (bool(empty[1]) == pol) != mode:
                continue
        else:
            if a.get(empty, mode == pol) != (mode == pol):
                continue
            a[empty] = mode == pol
        if not occurs(R, a, mode, offs0, nev0, size0, some):
            continue
        q = Path(p.ops, p.marshals, a, p.evs)
        try:
            one(ctx, X, R, q, mode, name, stat, seen, fresh, some, a0, a1, yes, recs, offs0, data0, klen0, nev0, size0, w)
        except Unknown as e:
            ctx.open("%s: %s" % (name, e))


def one(ctx, X, R, p, mode, name, stat, seen, fresh, some, a0, a1, yes, recs, offs0, data0, klen0, nev0, size0, w):
    io = X.io
    P = io.project

    def eq(rule, a, b, what, ws, kind="eq", extra=()):
        for asm, subs in ws:
            d = fold("Sub", sub(R.x(a), subs), sub(R.x(b), subs))
            asm = {sub(k, subs) if subs else k: l for k, l in asm.items()}
            r = iofx.always(kind, d, asm, extra)
            if r is not None and undecided(r):
                ctx.open("%s: %s not decided: %s" % (name, rule, say(r, R)[:160]))
                return
            note(seen, rule, name, w, r is None, "" if r is None else "%s: they differ by %s" % (what, say(r, R)))
            if r is not None:
                return
    T = None
    V = a1
    if recs:
        T = [R.x(t) for t in recs[0].rec[2]]
        V = recs[0].rec[1]
    ws = worlds(X, R, p, T, a0, fresh, some)
    if V is None:
        ctx.open("%s: the basket on return is not known" % name)
        return
    if not ws:
        return
    offs1 = P(X.offs, V)
    nev1, size1 = P(X.bk.fields["fNevBuf"], V), P(X.bk.fields["fNevBufSize"], V)
    if not recs and a1 is not None:
        k0, k1 = P(X.key, a0), P(X.key, a1)
        note(seen, "key-kept-while-filling", name, w, strip(k0) == strip(settle(R, p, k1)),
             "the key of the basket changes while entries are added")
    # ---- the table
    for t, a in spine_cases(R, offs1, p.assume):
        below, sets, shift = peel(R, t, a)
        asm = [(dict(a, **{}), subs) for _, subs in ws[:1]]
        if mode:
            note(seen, "no-table-without-offsets", name, w, not sets and strip(below) == strip(offs0),
                 "a basket without entry offsets gets some: %s" % show(t)[:100])
            continue
        note(seen, "one-position-per-entry", name, w, len(sets) == yes,
             "%d elements of the table are set where %d entries are added" % (len(sets), yes))
        if len(sets) == yes == 1:
            idx, val = sets[0]
            eq("position-index", idx, nev0, "the index of the element set and the number of entries before", asm)
            eq("position-recorded", val, fold("Add", klen0, io.length(R.I, data0)),
               "the position recorded and the end of the data before the entry", asm)
        if yes:
            room(ctx, X, R, a, name, w, seen, below, sets, offs0, nev0, size0, nev1, size1, some, eq)
        if recs:
            both = []
            for b, subs in ws:
                c = dict(b)
                if any(c.get(k, l) != l for k, l in a.items()):
                    continue
                c.update(a)
                if not iofx.refuted(iofx.constraints({sub(k, subs) if subs else k: l for k, l in c.items()})):
                    both.append((c, subs))
            eq("positions-follow-key", shift, fold("Sub", T[KEYLEN], klen0),
               "what the positions grow by and the growth of the key header", both)
        else:
            note(seen, "positions-kept", name, w, shift == C(0), "the positions recorded earlier change by %s" % show(shift)[:80])
    if not recs:
        return
    # ---- what is written
    i = p.ops.index(recs[0])
    if i + 1 >= len(p.ops):
        ctx.open("%s: the data of the basket is not found" % name)
        return
    cs = content(R, p.ops[i + 1].bytes)
    b = strip(cs[0][1]) if cs[0][0] == "base" else None
    if b is None or not grown_from(R, b, data0):
        if any(x[0] in ("top", "mut") for x in subterms(p.ops[i + 1].bytes)):
            ctx.open("%s: the data of the basket is not known" % name)
        else:
            note(seen, "data-written-as-filled", name, w, False, "the data written does not start with the data of the basket: %s" %
                 show(cs[0])[:100])
        return
    dlen = io.length(R.I, b)
    eq("data-end-declared", P(X.bk.fields["fLast"], V), fold("Add", T[KEYLEN], dlen),
       "fLast and the end of the data", ws)
    tab = cs[1:]
    stat["tables"] += bool(tab)
    if mode:
        note(seen, "no-table-without-offsets", name, w, not tab, "%d chunks follow the data of a basket without offsets" % len(tab))
        return
    if [c[0] for c in tab] != ["be", "each", "be"]:
        if any(c[0] in ("top", "mut", "base") for c in tab) or any(c[0] in ("wire", "lv", "phi") for c in tab):
            ctx.open("%s: the offset table written is not decided: %s" % (name, [show(c)[:60] for c in tab]))
        else:
            note(seen, "table-layout", name, w, False, "after the data come %s" % [show(c)[:60] for c in tab])
        return
    cnt, each, last = tab
    e = strip(each[1][2])
    note(seen, "table-layout", name, w, cnt[1] == each[1][1] == last[1] == 4, "the table does not have 4-byte integers")
    eq("table-count", cnt[2], fold("Add", nev1, C(1)), "the count before the table and the entries plus one", ws)
    eq("table-closed", last[2], C(0), "the last element of the table and 0", ws)
    if e[0] != "elem":
        ctx.open("%s: the elements of the table written are not decided: %s" % (name, show(e)[:100]))
        return
    lst, lo, hi = strip(e[1]), C(0), None
    if lst[0] == "subslice":
        if lst[2] == "Range":
            lo, hi = lst[3]
        elif lst[2] == "RangeTo":
            hi = lst[3][0]
        lst = strip(lst[1])
    if hi is None:
        hi = each[2]
    if hi is None:
        ctx.open("%s: how many elements of the table are written is not decided" % name)
        return
    eq("table-elements", lo, C(0), "the first element written and the first", ws)
    _, inv1 = invariant(R, offs1, nev1, size1, some)
    eq("table-elements", hi, nev1, "the number of elements written and of entries", ws, extra=inv1)
    note(seen, "table-written", name, w, strip(settle(R, p, lst)) == strip(settle(R, p, offs1)),
         "the elements written are not those of the table: %s" % show(lst)[:100])


def room(ctx, X, R, a, name, w, seen, below, sets, offs0, nev0, size0, nev1, size1, some, eq):
    """the index lies inside the table: by the invariant that the table has fNevBufSize elements, more than entries"""
    io = X.io
    subs, extra = invariant(R, offs0, nev0, size0, some)
    l0 = logic.length(offs0)
    l1 = below_len(R, below)
    asm = [(a, subs)]
    if sets:
        d = fold("Sub", R.x(fold("Sub", l1, C(1))), sub(R.x(sets[0][0]), [y for y in subs if y[1][0] == "count"]))
        X.direct.append(iofx.always("ge", d, a) is None)
    if not some:
        eq("table-size-at-creation", R.x(l0), R.x(size0), "the size of a new table and fNevBufSize", asm, extra=extra)
    eq("table-has-room", fold("Sub", l1, C(1)), sets[0][0] if sets else C(0), "the size of the table and the index", asm, "ge", extra)
    eq("table-size-kept", l1, size1, "the size of the table and fNevBufSize", asm, extra=extra)
    eq("room-for-next-entry", fold("Sub", l1, C(1)), nev1, "the size of the table and the entries", asm, "ge", extra)


def invariant(R, offs0, nev0, size0, some):
    """(substitutions, linear forms >= 0) that hold of a table with elements on entry"""
    n0, s0, l0 = strip(R.x(nev0)), strip(R.x(size0)), logic.length(offs0)
    cnt = ("count", n0) if n0[0] != "c" else n0
    subs = [(s0, l0)] if some else []
    if n0[0] != "c":
        subs.append((n0, cnt))
    inv = {k: c for k, c in logic.linear(fold("Sub", fold("Sub", sub(l0, subs), C(1)), cnt)).items()}
    return subs, [inv, {k: 2 * c for k, c in inv.items()}]


def occurs(R, a, mode, offs0, nev0, size0, some):
    """whether the path is one of a basket with (without) a table: the tests of the table after the update decide the same"""
    subs, extra = invariant(R, offs0, nev0, size0, some)
    for c, l in list(a.items()):
        if not isinstance(l, bool) or c[0] != "bin" or iofx.first_cond(c) is None:
            continue
        b = {k: x for k, x in a.items() if k is not c}
        u, pol = canon_cond(logic.simp(c, None, b), True)
        if u[0] == "c":
            if (bool(u[1]) == pol) != l:
                return False
            continue
        if u in b and isinstance(b[u], bool):
            if b[u] != (l == pol):
                return False
            continue
        if c[1] == "Eq" and strip(c[3]) == C(0) and l and not mode:
            b = {sub(k, subs): x for k, x in b.items()}
            if iofx.always("ge", fold("Sub", sub(c[2], subs), C(1)), b, extra) is None:
                return False
    return True


def below_len(R, b):
    return R.x(R.io.length(R.I, b))


FIXED = re.compile(r"^(bool|[iu](8|16|32|64)|f(32|64)|\[(bool|[iu](8|16|32|64)|f(32|64)); \d+\])$")
VARYING = re.compile(r"^(std::string::String|std::vec::Vec<.*>)$")
NEW_BRANCH = "oxyroot::rtree::tree::writer::WriterTree::new_branch"


def kinds(ctx, F, io, X, seen):
    """branches of entries of varying size keep offsets, the others do not"""
    n = 0
    want = {}
    for b in F.mono():
        if b.poly or b.name != NEW_BRANCH or b.argc != 3:
            continue
        m = re.match(r"^std::iter::Empty<(.*)>$", F.tstr(b.locals[3][0]))
        if not m:
            continue
        t = m.group(1)
        v = True if VARYING.match(t) else False if FIXED.match(t) else None
        if v is None:
            continue
        x = ctx.attempt("new_branch of " + t, offset_len, F, io, X, b)
        if x is None:
            ctx.open("new_branch of %s: the branch added is not known" % t)
            continue
        n += 1
        x = strip(x)
        if x[0] != "c":
            ctx.open("new_branch of %s: fEntryOffsetLen is %s" % (t, show(x)[:80]))
            continue
        note(seen, "offsets-for-varying-entries", "branch of " + t, b.where(), (x[1] > 0) == v,
             "fEntryOffsetLen of a branch of %s is %s" % (t, x[1]))
        want.setdefault(v, set()).add(x[1])
    ctx.floor("element types", n, 10)
    # a new basket has a table exactly when the branch says so
    fr = X.fresh
    if fr is None:
        ctx.open("a new basket is not known")
        return
    l0 = logic.length(io.project(X.offs, fr))
    at = [y for y in subterms(l0) if y[0] == "fld" and fields_(y) and fields_(y)[-1] == strip(X.tb.fields["fEntryOffsetLen"])[2]]
    for v, cs in sorted(want.items()):
        for c in sorted(cs):
            x = l0
            for y in at:
                x = logic.subst(x, y, C(c))
            x = strip(logic.simp(x))
            if x[0] != "c":
                ctx.open("the size of the offset table of a new basket is not decided: %s" % show(x)[:100])
                continue
            note(seen, "table-as-branch-says", "fEntryOffsetLen %d" % c, X.bk.body.where(), (x[1] > 0) == v,
                 "a new basket of such a branch has an offset table of %d" % x[1])


def offset_len(F, io, X, b):
    I, seq, v, st = io.run(b, [("p", "self"), ("p", "a1"), ("p", "a2")])
    f = st.store.get(("H", ("p", "self")))
    xs = [y for y in subterms(f) if y[0] == "push"] if f is not None else []
    for y in xs:
        for u, a in iofx.cases(y[2], {}):
            t = found(F, io, u, X.tb.struct)
            if t is not None:
                return io.expand(I, io.project(X.tb.fields["fEntryOffsetLen"], t))
    return None


def found(F, io, v, struct):
    """the struct inside a value made of constructors"""
    for y in subterms(v):
        if y[0] == "adt" and norm(y[1]) == struct:
            return y
        if y[0] == "upd":
            z = strip(y[1])
            while z[0] == "upd":
                z = strip(z[1])
            if z[0] == "adt" and norm(z[1]) == struct:
                return y
    return None
