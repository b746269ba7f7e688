"""Term rewriting for the value provenance terms of absint: substitution, folding, linear normal forms and a small
interval decision procedure for path conditions. Purely syntactic: no solver is involved."""
from absint import strip, canon_cond, C, show

CMP = ("Lt", "Eq", "Le", "Gt", "Ge", "Ne")
_fold = None


def fold(op, a, b):
    global _fold
    if _fold is None:
        from absint import Interp
        _fold = Interp.__new__(Interp)
    return _fold.binop(op, a, b, None)


def unref(v):
    """('ref', ('H', x), path) -> x.path"""
    if v[0] == "ref" and v[1][0] == "H":
        x = v[1][1]
        for e in v[2]:
            if e[0] == "f":
                x = ("fld", x, e[2] if len(e) > 2 else e[1])
            elif e[0] == "d":
                continue
            elif e[0] == "ci":
                x = ("elem", x, "*")
            elif e[0] in ("i", "idx"):
                x = ("elem", x, "*")
            else:
                x = ("proj", x, e)
        return x
    return v


def simp(v, env=None, assume=None, memo=None):
    if not isinstance(v, tuple) or not v:
        return v
    if memo is None:
        memo = {}
    key = id(v)
    if key in memo and memo[key][0] is v:
        return memo[key][1]
    r = _simp(v, env, assume, memo)
    memo[key] = (v, r)
    return r


def _simp(v, env, assume, memo):
    k = v[0]
    if not isinstance(k, str):
        return tuple(simp(x, env, assume, memo) for x in v)
    if k in ("c", "s", "p"):
        return v
    if k == "rd":
        if env is not None and v in env:
            return simp(env[v], None, assume, {})
        return v
    if k == "phi":
        lab = decide(v[1], env, assume, memo)
        if lab is not None:
            x = pick_arm(v[2], lab)
            if x is not None:
                return simp(x, env, assume, memo)
        arms = tuple((l, simp(x, env, assume, memo)) for l, x in v[2])
        if all(x == arms[0][1] for _, x in arms):
            return arms[0][1]
        return ("phi", simp(v[1], env, assume, memo), arms)
    if k == "bin":
        a, b = simp(v[2], env, assume, memo), simp(v[3], env, assume, memo)
        if v[1] == "BitAnd" and b[0] == "c" and isinstance(b[1], int):
            x = strip(a)
            # (y | c) & m == y & m when c and m share no bit; (y & c) & m == y & (c & m)
            if x[0] == "bin" and x[1] == "BitOr" and x[3][0] == "c" and x[3][1] & b[1] == 0:
                return simp(("bin", "BitAnd", x[2], b), None, assume)
            if x[0] == "bin" and x[1] == "BitAnd" and x[3][0] == "c":
                return simp(("bin", "BitAnd", x[2], C(x[3][1] & b[1])), None, assume)
            return fold("BitAnd", x, b)
        return fold(v[1], a, b)
    if k == "cast":
        x = simp(v[2], env, assume, memo)
        if x[0] == "c":
            return x
        return ("cast", v[1], x)
    if k == "pl":
        return simp(v[-1], env, assume, memo)
    if k == "ref":
        u = unref(v)
        if u is not v:
            return simp(u, env, assume, memo)
    if k == "len":
        x = simp(v[1], env, assume, memo)
        return length(x)
    if k == "fld":
        x = simp(v[1], env, assume, memo)
        if x[0] == "phi":
            return ("phi", x[1], tuple((l, ("fld", y, v[2])) for l, y in x[2]))
        return ("fld", x, v[2])
    if k == "discr":
        x = simp(v[1], env, assume, memo)
        if x[0] == "adt":
            return C(x[2])
        return ("discr", x)
    if k == "elem" and env is not None and v in env:
        return simp(env[v], None, assume, {})
    return tuple(simp(x, env, assume, memo) if isinstance(x, tuple) else x for x in v)


def length(x):
    x = strip(x)
    if x[0] == "upd" and all(isinstance(k, tuple) and k[0] == "elem" for k, _ in x[2]):
        return length(x[1])
    if x[0] in ("repn", "resized"):
        return x[2]
    if x[0] == "s":
        return C(len(x[1].encode()))
    if x[0] == "arr":
        return C(len(x[1]))
    if x[0] == "rep" and isinstance(x[2], int):
        return C(x[2])
    if x[0] == "subslice":
        b = x[3]
        if x[2] == "Range":
            return fold("Sub", b[1], b[0])
        if x[2] == "RangeTo":
            return b[0]
    if x[0] == "be":
        return C(x[1])
    if x[0] == "coll":
        return ("count", x[2])
    return ("len", x)


def pick_arm(arms, lab):
    for l, x in arms:
        if l == lab or (isinstance(l, tuple) and l and l[0] == "in" and lab in l[1]):
            return x
    for l, x in arms:
        if l == "else" and not any(lab == l2 for l2, _ in arms):
            return x
    return None


# linear normal form: dict atom -> coefficient, constant under None
def linear(v):
    v = strip(v)
    if v[0] == "len" and v[1][0] == "upd":
        v = length(v[1])
    if v[0] == "c" and isinstance(v[1], int):
        return {None: v[1]}
    if v[0] == "bin" and v[1] in ("Add", "Sub"):
        a, b = linear(v[2]), linear(v[3])
        s = 1 if v[1] == "Add" else -1
        out = dict(a)
        for k, c in b.items():
            out[k] = out.get(k, 0) + s * c
        return {k: c for k, c in out.items() if c != 0 or k is None}
    if v[0] == "un" and v[1] == "Neg":
        return {k: -c for k, c in linear(v[2]).items()}
    if v[0] == "bin" and v[1] == "Mul":
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            x = strip(x)
            if x[0] == "c" and isinstance(x[1], int):
                return {k: c * x[1] for k, c in linear(y).items()}
    return {v: 1, None: 0} if v[0] != "top" else {v: 1}


def lin_eq(a, b):
    la, lb = linear(a), linear(b)
    d = dict(la)
    for k, c in lb.items():
        d[k] = d.get(k, 0) - c
    return all(c == 0 for c in d.values())


def lin_sub(a, b):
    return fold("Sub", a, b)


def is_zero(v):
    return all(c == 0 for c in linear(v).values())


def negate_label(lab):
    return (not lab) if isinstance(lab, bool) else None


def intervals(assume, env, memo=None):
    """atom-combination (as frozenset of items w/o constant) -> (lo, hi) from integer comparisons that are assumed"""
    iv = {}
    for cond, lab in (assume or {}).items():
        if not (isinstance(cond, tuple) and cond and cond[0] == "bin" and cond[1] in ("Lt", "Eq")):
            continue
        if not isinstance(lab, bool):
            continue
        d = linear(("bin", "Sub", cond[2], cond[3]))
        c = d.pop(None, 0)
        d = {k: x for k, x in d.items() if x}
        if not d:
            continue
        # sum(d) + c  <op> 0
        for sgn in (1, -1):
            key = frozenset((k, x * sgn) for k, x in d.items())
            lo, hi = iv.get(key, (None, None))
            if cond[1] == "Lt":
                if lab:   # s + c <= -1
                    b = -1 - c
                    if sgn == 1:
                        hi = b if hi is None else min(hi, b)
                    else:
                        lo = -b if lo is None else max(lo, -b)
                else:     # s + c >= 0
                    b = -c
                    if sgn == 1:
                        lo = b if lo is None else max(lo, b)
                    else:
                        hi = -b if hi is None else min(hi, -b)
            elif lab:
                b = -c if sgn == 1 else c
                lo = b if lo is None else max(lo, b)
                hi = b if hi is None else min(hi, b)
            iv[key] = (lo, hi)
    return iv


def feasible(assume):
    for lo, hi in intervals(assume, None).values():
        if lo is not None and hi is not None and lo > hi:
            return False
    return True


def decide(cond, env, assume, memo=None):
    """label taken by `cond` if it is determined, else None"""
    if assume and cond in assume:
        return assume[cond]
    c = simp(cond, env, assume, memo)
    if c[0] == "c":
        if cond[0] == "bin" and cond[1] in CMP:
            return bool(c[1])
        return c[1]
    key, pol = canon_cond(c, True)
    if assume:
        for k2, p2 in ((c, True), (key, pol)):
            if k2 in assume:
                lab = assume[k2]
                if isinstance(lab, bool):
                    return lab == p2
                return lab
    if key[0] == "c":
        return bool(key[1]) == pol
    if key[0] == "bin" and key[1] in ("Lt", "Eq"):
        d = linear(("bin", "Sub", key[2], key[3]))
        k0 = d.pop(None, 0)
        d = {k: x for k, x in d.items() if x}
        if not d:
            r = (k0 < 0) if key[1] == "Lt" else (k0 == 0)
            return r == pol
        if assume:
            iv = intervals(assume, env)
            lo, hi = iv.get(frozenset(d.items()), (None, None))
            if key[1] == "Lt":
                if hi is not None and hi + k0 < 0:
                    return pol
                if lo is not None and lo + k0 >= 0:
                    return not pol
            else:
                if lo is not None and lo == hi and lo + k0 == 0:
                    return pol
                if (hi is not None and hi + k0 < 0) or (lo is not None and lo + k0 > 0):
                    return not pol
    return None


def phi_conds(v, out=None):
    """conditions of phis inside a term"""
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and v[0] == "phi":
            if v[1] not in out:
                out.append(v[1])
            for _, x in v[2]:
                phi_conds(x, out)
            return out
        for x in v:
            if isinstance(x, tuple):
                phi_conds(x, out)
    return out


def labels_of(v, cond):
    """labels with which `cond` occurs as a phi condition in v"""
    if isinstance(v, tuple):
        if v and v[0] == "phi" and v[1] == cond:
            return [l for l, _ in v[2]]
        for x in v:
            if isinstance(x, tuple):
                r = labels_of(x, cond)
                if r:
                    return r
    return None


def subst(v, frm, to):
    if v == frm:
        return to
    if isinstance(v, tuple):
        return tuple(subst(x, frm, to) if isinstance(x, tuple) else x for x in v)
    return v
