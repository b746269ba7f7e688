"""Operations on lists whose elements are all known (Interp.literals): filters, searches, sorting, removal. Everything here either
computes the exact result or answers NotImplemented, which leaves the call to the general models."""
import models
from absint import C, NONE, some

LIMIT = 60


def items(I, it, st, site, depth=0):
    """(the elements an iterator hands out, state) when they are all known; None otherwise"""
    k = it[1]
    if depth > 8:
        return None
    if k == "one":
        return [it[2]], st
    if k == "src":
        v = it[2]
        if v[0] == "ref":
            x = I.pick(I.load(st, v[1], v[2]), st)
            if x[0] == "arr" and len(x[1]) <= LIMIT:
                return [("ref", v[1], v[2] + (("ci", C(i)),)) for i in range(len(x[1]))], st
            return None
        v = I.pick(v, st)
        return (list(v[1]), st) if v[0] == "arr" and len(v[1]) <= LIMIT else None
    if k == "range" and it[2][0] == it[3][0] == "c" and it[3][1] - it[2][1] <= LIMIT:
        return [C(i) for i in range(it[2][1], it[3][1])], st
    if k == "zip" and it[2][0] == it[3][0] == "iter":
        a = items(I, it[2], st, site, depth + 1)
        b = a and items(I, it[3], a[1], site, depth + 1)
        return b and ([("tup", x) for x in zip(a[0], b[0])], b[1])
    if k == "chain" and it[2][0] == it[3][0] == "iter":
        a = items(I, it[2], st, site, depth + 1)
        b = a and items(I, it[3], a[1], site, depth + 1)
        return b and (a[0] + b[0], b[1])
    if k not in ("cloned", "enum", "rev", "map", "filter", "filter_map", "skip", "take", "flat_map") or it[2][0] != "iter":
        return None
    r = items(I, it[2], st, site, depth + 1)
    if r is None:
        return None
    xs, st = r
    if k == "cloned":
        return [I.deref_all(x, st) for x in xs], st
    if k == "enum":
        return [("tup", (C(i), x)) for i, x in enumerate(xs)], st
    if k == "rev":
        return xs[::-1], st
    if k in ("skip", "take"):
        n = I.pick(it[3], st)
        return None if n[0] != "c" else (xs[n[1]:] if k == "skip" else xs[:n[1]], st)
    if k == "filter" and len(it) > 4:
        return None
    out = []
    for x in xs:
        if k == "flat_map":
            v = x if it[3] is None else None
            if v is None:
                v, st = call(I, it[3], [x], st, site)
            if v is None:
                return None
            sub = items(I, models.mkiter(I, v, st), st, site, depth + 1)
            if sub is None:
                return None
            out += sub[0]
            st = sub[1]
            continue
        v, st = call(I, it[3], [hold(I, st, x)] if k == "filter" else [x], st, site)
        if v is None:
            return None
        if k == "map":
            out.append(v)
        elif k == "filter":
            if v[0] != "c":
                return None
            out += [x] if v[1] else []
        elif v == NONE:
            continue
        elif v[0] == "adt" and v[2] == 1 and len(v[3]) == 1:
            out.append(v[3][0])
        else:
            return None
    return out, st


def hold(I, st, x):
    """a reference to a value"""
    root = ("C", I.fresh())
    st.store[root] = x
    return ("ref", root, ())


def call(I, f, args, st, site):
    """(value, state) of a closure that only computes; (None, st) otherwise"""
    seq = []
    r = I.call_value(f, args, st, seq, site)
    if r is None or r[0] is None or r[1] is None or seq:
        return None, st
    return I.pick(r[0], r[1]), r[1]


def place(I, a, st):
    n = 0
    while a[0] == "ref" and n < 6:
        nx = I.pick(I.load(st, a[1], a[2]), st)
        if nx[0] != "ref":
            break
        a, n = nx, n + 1
    return a


def known(I, a, st):
    v = I.deref_all(a, st)
    return list(v[1]) if v[0] == "arr" and len(v[1]) <= LIMIT else None


def key_of(I, v, st):
    """a key to sort by"""
    v = I.deref_all(v, st)
    if v[0] in ("c", "s"):
        return v[1]
    if v[0] in ("tup", "arr"):
        ks = [key_of(I, x, st) for x in v[1]]
        return None if any(k is None for k in ks) else tuple(ks)
    if v[0] == "adt" and v[1].endswith("cmp::Reverse") and len(v[3]) == 1:
        k = key_of(I, v[3][0], st)
        return None if not isinstance(k, int) else -k
    if v[0] == "adt" and v[1].endswith("option::Option"):
        ks = [key_of(I, x, st) for x in v[3]]
        return None if any(k is None for k in ks) else (v[2],) + tuple(ks)
    return None


def ordering(I, v, st):
    v = I.pick(v, st)
    if v[0] == "adt" and v[1].endswith("cmp::Ordering"):
        return v[2] - 1
    return None


def keys(I, c, f, xs, st):
    """(sort keys of the elements, state)"""
    out = []
    for x in xs:
        if f is not None:
            x, st = call(I, f, [x], st, c.site)
        k = None if x is None else key_of(I, x, st)
        if k is None:
            return None
        out.append(k)
    return out, st


def by(I, c, f, xs, st):
    """(rank of every element under a comparing closure, state)"""
    ranks = []
    for i, x in enumerate(xs):
        r = 0
        for j, y in enumerate(xs):
            if i == j:
                continue
            v, st = call(I, f, [x, y], st, c.site)
            o = None if v is None else ordering(I, v, st)
            if o is None:
                return None
            r += o > 0
        ranks.append(r)
    return ranks, st


def best(ks, w):
    m = (max if w.startswith("max") else min)(ks)
    at = [i for i, k in enumerate(ks) if k == m]
    return at[-1] if w.startswith("max") else at[0]


def on_iter(I, c):
    if not I.literals:
        return NotImplemented
    w = c.decl.rsplit("::", 1)[1]
    r = items(I, models.mkiter(I, c.args[0], c.st), c.st.copy(), c.site)
    if r is None:
        return NotImplemented
    xs, st = r
    if w == "collect":
        d = models.dest_ty(I, c)
        if not d or d.get("k") != "adt" or not d["name"].endswith("::Vec"):
            return NotImplemented
        return ("arr", tuple(xs)), st
    if w == "count":
        return C(len(xs)), st
    if w == "last":
        return (some(xs[-1]) if xs else NONE), st
    if w == "nth":
        n = I.pick(c.args[1], st)
        if n[0] != "c" or c.args[0][0] == "ref":
            return NotImplemented
        return (some(xs[n[1]]) if n[1] < len(xs) else NONE), st
    if w == "fold":
        acc = c.args[1]
        for x in xs:
            acc, st = call(I, c.args[2], [acc, x], st, c.site)
            if acc is None:
                return NotImplemented
        return acc, st
    if w == "find_map":
        for x in xs:
            v, st = call(I, c.args[1], [x], st, c.site)
            if v is None or v[0] != "adt":
                return NotImplemented
            if v[2] == 1:
                return v, st
        return NONE, st
    if w in ("any", "all", "find", "position", "rposition", "rfind"):
        back = w[0] == "r"
        order = list(enumerate(xs))
        for i, x in order[::-1] if back else order:
            v, st = call(I, c.args[1], [hold(I, st, x)] if w.endswith("find") else [x], st, c.site)
            if v is None or v[0] != "c":
                return NotImplemented
            if bool(v[1]) == (w != "all"):
                return {"any": C(1), "all": C(0)}.get(w, some(x) if w.endswith("find") else some(C(i))), st
        return {"any": C(0), "all": C(1)}.get(w, NONE), st
    if w in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
        if not xs:
            return NONE, st
        if w.endswith("_by"):
            held = [hold(I, st, x) for x in xs]
            r = by(I, c, c.args[1], held, st)
        elif w.endswith("key"):
            r = keys(I, c, c.args[1], [hold(I, st, x) for x in xs], st)
        else:
            r = keys(I, c, None, xs, st)
        if r is None:
            return NotImplemented
        return some(xs[best(r[0], w)]), r[1]
    return NotImplemented


def on_vec(I, c):
    if not I.literals:
        return NotImplemented
    w = c.decl.rsplit("::", 1)[1]
    xs = known(I, c.args[0], c.st)
    if xs is None:
        return NotImplemented
    a = place(I, c.args[0], c.st)
    st = c.st.copy()
    if w in ("remove", "swap_remove"):
        n = I.pick(c.args[1], st)
        if n[0] != "c" or n[1] >= len(xs):
            return NotImplemented
        x = xs[n[1]]
        if w == "swap_remove":
            xs[n[1]] = xs[-1]
            xs.pop()
        else:
            del xs[n[1]]
        I.store_to(st, a[1], a[2], ("arr", tuple(xs)), c.site)
        return x, st
    if w == "pop":
        x = xs.pop() if xs else None
        I.store_to(st, a[1], a[2], ("arr", tuple(xs)), c.site)
        return (NONE if x is None else some(x)), st
    if w == "reverse":
        I.store_to(st, a[1], a[2], ("arr", tuple(xs[::-1])), c.site)
        return models.UNIT, st
    if w == "retain":
        out = []
        for x in xs:
            v, st = call(I, c.args[1], [hold(I, st, x)], st, c.site)
            if v is None or v[0] != "c":
                return NotImplemented
            out += [x] if v[1] else []
        I.store_to(st, a[1], a[2], ("arr", tuple(out)), c.site)
        return models.UNIT, st
    if w.startswith("sort"):
        held = [hold(I, st, x) for x in xs]
        if w.endswith("key"):
            r = keys(I, c, c.args[1], held, st)
        elif w.endswith("by"):
            r = by(I, c, c.args[1], held, st)
        else:
            r = keys(I, c, None, xs, st)
        if r is None:
            return NotImplemented
        out = [x for _, x in sorted(zip(r[0], xs), key=lambda p: p[0])]
        st = r[1]
        I.store_to(st, a[1], a[2], ("arr", tuple(out)), c.site)
        return models.UNIT, st
    if w == "last" and a[0] == "ref":
        return (some(("ref", a[1], a[2] + (("ci", C(len(xs) - 1)),))) if xs else NONE), st
    return NotImplemented


HOOKS = {"std::iter::Iterator::" + w: on_iter for w in
         ("collect", "count", "last", "nth", "fold", "find_map", "any", "all", "find", "position", "max", "min", "max_by_key", "min_by_key",
          "max_by", "min_by")}
HOOKS.update({"std::vec::Vec::" + w: on_vec for w in ("remove", "swap_remove", "pop", "retain")})
HOOKS.update({"std::slice::<impl [T]>::" + w: on_vec for w in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
                                                               "sort_unstable_by_key", "sort_by_cached_key", "reverse", "last")})


# ------------------------------------------------------------------ strings
STR = "std::str::<impl str>::"


def text(I, a, st):
    v = I.deref_all(a, st)
    return v[1] if v[0] == "s" and isinstance(v[1], str) else None


def pattern(I, c, a):
    """a pattern argument as a string (a character comes as its code)"""
    v = I.deref_all(a, c.st)
    if v[0] == "s":
        return v[1]
    if v[0] == "c" and isinstance(v[1], int) and 0 < v[1] < 0x110000:
        return chr(v[1])
    return None


def pair(x):
    return some(("tup", tuple(models.S(y) for y in x))) if x else NONE


def on_str(I, c):
    if not I.literals:
        return NotImplemented
    w = c.decl.rsplit("::", 1)[1]
    s = text(I, c.args[0], c.st)
    if s is None:
        return NotImplemented
    st = c.st
    if w == "parse":
        d = models.dest_ty(I, c)
        ts = [I.T(t) for t in (d or {}).get("args") or [] if isinstance(t, int)]
        t = ts[0]["s"] if ts else ""
        if t[:1] not in "iu" or not t[1:].isdigit():
            return NotImplemented
        n, signed = int(t[1:]), t[0] == "i"
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if signed else (0, (1 << n) - 1)
        d = s[1:] if s[:1] == "+" or signed and s[:1] == "-" else s
        good = d.isascii() and d.isdigit() and lo <= int(s) <= hi
        return (models.ok(C(int(s))) if good else models.err(("sym", "not a number"))), st
    if w in ("len", "is_empty"):
        return C(len(s.encode()) if w == "len" else int(not s)), st
    if w in ("trim", "trim_start", "trim_end") and len(c.args) == 1:
        return models.S(s.strip() if w == "trim" else s.lstrip() if w == "trim_start" else s.rstrip()), st
    if w == "bytes" or w == "as_bytes":
        return NotImplemented
    if w in ("splitn", "rsplitn"):
        n, p = I.pick(c.args[1], st), pattern(I, c, c.args[2])
        if p is None or not p or n[0] != "c" or n[1] < 1:
            return NotImplemented
        xs = s.split(p, n[1] - 1) if w == "splitn" else s.rsplit(p, n[1] - 1)[::-1]
        return ("iter", "src", ("arr", tuple(map(models.S, xs)))), st
    p = pattern(I, c, c.args[1]) if len(c.args) > 1 else None
    if not p:
        return NotImplemented
    if w in ("split", "rsplit"):
        xs = s.split(p)
        return ("iter", "src", ("arr", tuple(map(models.S, xs if w == "split" else xs[::-1])))), st
    if w in ("split_once", "rsplit_once"):
        return pair(p in s and (s.split(p, 1) if w == "split_once" else s.rsplit(p, 1))), st
    if w in ("find", "rfind"):
        i = s.find(p) if w == "find" else s.rfind(p)
        return (NONE if i < 0 else some(C(len(s[:i].encode())))), st
    if w in ("contains", "starts_with", "ends_with"):
        return C(int({"contains": p in s, "starts_with": s.startswith(p), "ends_with": s.endswith(p)}[w])), st
    if w in ("strip_prefix", "strip_suffix"):
        if w == "strip_prefix":
            return (some(models.S(s[len(p):])) if s.startswith(p) else NONE), st
        return (some(models.S(s[:-len(p)])) if s.endswith(p) else NONE), st
    return NotImplemented


def on_index(I, c):
    """a part of a known string"""
    if not I.literals:
        return NotImplemented
    s = text(I, c.args[0], c.st)
    i = I.deref_all(c.args[1], c.st)
    if s is None or i[0] != "adt" or any(x[0] != "c" for x in i[3]):
        return NotImplemented
    b, n = s.encode(), [x[1] for x in i[3]]
    w = i[1].rsplit("::", 1)[1]
    lo, hi = {"Range": lambda: n, "RangeFrom": lambda: (n[0], len(b)), "RangeTo": lambda: (0, n[0]), "RangeFull": lambda: (0, len(b)),
              "RangeToInclusive": lambda: (0, n[0] + 1)}.get(w, lambda: (1, 0))()
    if not 0 <= lo <= hi <= len(b):
        return NotImplemented
    return models.S(b[lo:hi].decode()), c.st


HOOKS.update({STR + w: on_str for w in ("parse", "len", "is_empty", "trim", "trim_start", "trim_end", "splitn", "rsplitn", "split", "rsplit",
                                        "split_once", "rsplit_once", "find", "rfind", "contains", "starts_with", "ends_with",
                                        "strip_prefix", "strip_suffix")})
HOOKS["std::ops::Index::index"] = on_index
