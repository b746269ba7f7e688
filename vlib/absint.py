"""Interprocedural abstract interpretation of MIR: conditional constant propagation, value provenance,
and effect summaries (structured sequences of events with alternatives and loops).

Values (immutable tuples)
  ('c', v)                      scalar constant            ('s', text)      string constant
  ('adt', T, variant, fields)   struct / enum value        ('tup', fields)  ('arr', fields)  ('clo', id, upvars)
  ('fn', instref)               function item              ('ref', root, path)
  ('phi', cond, ((label, v)..)) merge of two control paths
  ('upd', base, ((key, v)..))   base with some components overwritten
  anything else                 a symbolic provenance term, e.g. ('p', name), ('fld', v, f), ('bin', op, a, b)
Nothing is executed: loops are widened to a fixed point, unknown conditions keep both arms.
"""
import sys
from facts import norm, cfg

sys.setrecursionlimit(20000)

TRANSPARENT = ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::ptr::unique::Unique",
               "std::ptr::non_null::NonNull", "std::mem::ManuallyDrop", "std::mem::MaybeUninit",
               "std::mem::maybe_dangling::MaybeDangling", "std::mem::MaybeDangling",
               "std::mem::manually_drop::ManuallyDrop", "std::mem::maybe_uninit::MaybeUninit")
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
UNIT = ("tup", ())


class Budget(Exception):
    pass


class AnalysisError(Exception):
    pass


def C(v):
    return ("c", v)


def S(t):
    return ("s", t)


def some(v):
    return ("adt", OPT, 1, (v,))


NONE = ("adt", OPT, 0, ())


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


def is_const(v):
    return v[0] == "c"


def strip(v):
    """provenance without casts / identity conversions"""
    while v[0] in ("cast", "pl", "conv", "optref"):
        v = v[1] if v[0] == "optref" else v[-1]
    return v


CASTW = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8,
         "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16}


def cast_label(src, dst):
    """the name of the target type, marked with ! where the source can hold values the target cannot"""
    a, b = CASTW.get(src), CASTW.get(dst)
    if a is None or b is None:
        return dst
    if a > b or (src[0] == "f" and dst[0] != "f"):
        return dst + "!"
    return dst


def narrowings(v):
    """(width, cast term) of every lossy cast a value goes through, not looking into calls and containers"""
    st, seen = [v], set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        if x[0] == "cast":
            if str(x[1]).endswith("!"):
                yield CASTW[x[1][:-1]], x
            st.append(x[2])
        elif x[0] in ("pl", "conv"):
            st.append(x[-1])
        elif x[0] == "optref":
            st.append(x[1])
        elif x[0] == "bin":
            st += [x[2], x[3]]
        elif x[0] == "un":
            st.append(x[2])
        elif x[0] == "phi":
            st += [y for _, y in x[2]]


def wrap_int(v, ty):
    if ty is None or not isinstance(v, int):
        return v
    k = ty.get("k")
    if k in ("int", "uint"):
        n = ty["bytes"] * 8
        v &= (1 << n) - 1
        if k == "int" and v >> (n - 1):
            v -= 1 << n
    return v


class State:
    __slots__ = ("store", "assume")

    def __init__(self, store=None, assume=None):
        self.store = {} if store is None else store
        self.assume = {} if assume is None else assume

    def copy(self):
        return State(dict(self.store), dict(self.assume))


def merge_vals(cond, lv, depth=0):
    """lv: list of (label, value)"""
    first = lv[0][1]
    if all(x[1] == first for x in lv[1:]):
        return first
    if all(x[1][0] == "adt" and first[0] == "adt" and x[1][1:3] == first[1:3] for x in lv):
        n = len(first[3])
        if all(len(x[1][3]) == n for x in lv):
            return ("adt", first[1], first[2],
                    tuple(merge_vals(cond, [(l, v[3][i]) for l, v in lv], depth + 1) for i in range(n)))
    if all(x[1][0] == "tup" and first[0] == "tup" and len(x[1][1]) == len(first[1]) for x in lv):
        return ("tup", tuple(merge_vals(cond, [(l, v[1][i]) for l, v in lv], depth + 1)
                             for i in range(len(first[1]))))
    bases = [x[1][1] if x[1][0] == "upd" else x[1] for x in lv]
    if all(b == bases[0] for b in bases[1:]) and any(x[1][0] == "upd" for x in lv):
        keys = []
        ds = []
        for l, v in lv:
            d = dict(v[2]) if v[0] == "upd" else {}
            ds.append((l, d))
            for k in d:
                if k not in keys:
                    keys.append(k)
        out = []
        for k in keys:
            out.append((k, merge_vals(cond, [(l, d.get(k) or default_comp(bases[0], k)) for l, d in ds], depth + 1)))
        return ("upd", bases[0], tuple(sorted(out, key=repr)))
    if phidepth(first) + sum(phidepth(x[1]) for x in lv[1:]) > 14:
        return ("top", "merge")
    return ("phi", cond, tuple(lv))


def all_err(v):
    if v[0] == "phi":
        return all(all_err(x) for _, x in v[2])
    return v[0] == "adt" and v[1] == RES and v[2] == 1


def const_leaves(v, depth=0):
    return all(x[0] == "c" or (x[0] == "phi" and depth < 5 and const_leaves(x, depth + 1)) for _, x in v[2])


def default_comp(base, key):
    if isinstance(key, str):
        return ("fld", base, key)
    return ("elem", base, key[1]) if key and key[0] == "elem" else ("fld", base, str(key))


def phidepth(v):
    if v[0] == "phi":
        return 1 + max(phidepth(x[1]) for x in v[2])
    return 0


def merge_states(cond, arms):
    """arms: list of (label, State)"""
    if len(arms) == 1:
        return arms[0][1]
    base = arms[0][1].store
    out = State(dict(base))
    ostore = out.store
    others = [st.store for _, st in arms[1:]]
    keys = {}
    for o in others:
        if len(o) != len(base) or o.keys() != base.keys():
            for k in o:
                if k not in base:
                    keys[k] = 1
            for k in base:
                if k not in o:
                    keys[k] = 1
        for k, v in o.items():
            if base.get(k) is not v:
                keys[k] = 1
    for k in keys:
        vals = []
        for l, st in arms:
            if k in st.store:
                vals.append((l, st.store[k]))
            elif k[0] == "H":
                vals.append((l, k[1]))
        ostore[k] = merge_vals(cond, vals) if len(vals) > 1 else vals[0][1]
    a0 = arms[0][1].assume
    for c, l in a0.items():
        if all(st.assume.get(c) == l for _, st in arms[1:]):
            out.assume[c] = l
    return out


def contains(v, pred, depth=0):
    if not isinstance(v, tuple):
        return False
    if pred(v):
        return True
    if depth > 60:
        return False
    return any(contains(x, pred, depth + 1) for x in v if isinstance(x, tuple))


def subterms(v, out=None):
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            out.append(v)
        for x in v:
            if isinstance(x, tuple):
                subterms(x, out)
    return out


def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 8:
        return "…"
    k = v[0]
    f = lambda x: show(x, d + 1)
    if not isinstance(k, str):
        return "(" + ", ".join(f(x) if isinstance(x, tuple) else str(x) for x in v) + ")"
    if k == "c":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "p":
        return v[1]
    if k == "fld":
        return f(v[1]) + "." + str(v[2])
    if k == "adt":
        return "%s#%s(%s)" % (v[1].split("::")[-1], v[2], ", ".join(f(x) for x in v[3]))
    if k in ("tup", "arr"):
        return "(" + ", ".join(f(x) for x in v[1]) + ")"
    if k == "bin":
        return "(%s %s %s)" % (f(v[2]), v[1], f(v[3]))
    if k == "cast":
        return f(v[2])
    if k in ("pl", "conv"):
        return f(v[-1])
    if k == "elem":
        return f(v[1]) + "[]"
    if k == "len":
        return "len(%s)" % f(v[1])
    if k == "phi":
        return "phi{%s: %s}" % (f(v[1]), "; ".join("%s=>%s" % (l, f(x)) for l, x in v[2]))
    if k == "upd":
        return "%s{%s}" % (f(v[1]), ", ".join("%s:=%s" % (kk if isinstance(kk, str) else "[]", f(x)) for kk, x in v[2]))
    if k == "call":
        return "%s(%s)" % (v[1].split("::")[-1], ", ".join(f(x) for x in v[2]))
    if k == "ref":
        return "&" + f(v[1]) + "".join("." + str(p[2] if p[0] == "f" else p[0]) for p in v[2])
    if k == "rd":
        return "rd#%s:%s" % (v[2], v[1])
    return k + "(" + ", ".join(f(x) if isinstance(x, tuple) else str(x) for x in v[1:]) + ")"


# canonical conditions ------------------------------------------------------------------------------
NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}


def canon_cond(v, boolean):
    """(key, polarity): a boolean condition in canonical form"""
    pol = True
    while True:
        if v[0] == "un" and v[1] == "Not" and boolean:
            v = v[2]
            pol = not pol
            continue
        if v[0] == "bin" and v[1] in NEG:
            op, a, b = v[1], v[2], v[3]
            if op == "Gt":
                op, a, b = "Lt", b, a
            elif op == "Ge":
                op = "Lt"
                pol = not pol
            elif op == "Le":
                op, a, b = "Lt", b, a
                pol = not pol
            elif op == "Ne":
                op = "Eq"
                pol = not pol
            if op == "Eq":
                if a[0] in ("c", "s") and b[0] not in ("c", "s"):
                    a, b = b, a
                if boolean and b == C(0) and a[0] in ("un", "bin") and (a[0] == "un" or a[1] in NEG):
                    v = a
                    pol = not pol
                    continue
                if boolean and b == C(1) and a[0] in ("un", "bin") and (a[0] == "un" or a[1] in NEG):
                    v = a
                    continue
            v = ("bin", op, a, b)
        return v, pol


class Frame:
    __slots__ = ("body", "id", "active", "depth")

    def __init__(self, body, fid, depth):
        self.body = body
        self.id = fid
        self.active = set()
        self.depth = depth


class Interp:
    def __init__(self, facts, hooks=None, prefix_hooks=None, max_depth=40, max_steps=400000, opaque=(), trace_calls=False,
                 inline=None):
        self.facts = facts
        self.hooks = dict(hooks or {})
        self.prefix_hooks = list(prefix_hooks or [])
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.refusals = False          # record the conditions under which a function returns an error
        self.fid = 0
        self.uid = 0
        self.stack = []
        self.recursion = 1             # how often a function may be on the stack
        self.literals = False          # unroll every loop over a known list
        self.opaque = set(opaque)
        self.lvdefs = {}
        self.lens = {}
        self.sets = []       # (root, path, value, where): writes to non-local memory
        self.visited = set()  # body ids analysed
        self.unknown = {}
        self.inline = inline
        self.tryp = []       # places where an error is propagated
        self.filters = None  # when a list: (iterator, truth of the predicate, site) of every filter driven

    # ------------------------------------------------------------ helpers
    def fresh(self):
        self.uid += 1
        return self.uid

    def T(self, i):
        return self.facts.types[i] if i is not None else None

    def load_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] in ("H", "K"):
                return root[1]
            return ("undef",)
        return v

    def pick(self, v, st):
        n = 0
        while v[0] == "phi" and n < 30:
            lab = st.assume.get(v[1])
            if lab is None:
                break
            for l, x in v[2]:
                if l == lab or (isinstance(l, tuple) and l and l[0] == "in" and lab in l[1]):
                    v = x
                    break
            else:
                break
            n += 1
        return v

    def walk(self, v, e, st):
        """component of value v selected by projection e"""
        v = self.pick(v, st)
        k = v[0]
        if k == "phi":
            lv = [(l, self.walk(x, e, st)) for l, x in v[2] if x[0] != "undef"]
            if not lv:
                return ("undef",)
            return merge_vals(v[1], lv)
        if e == "*":
            if k == "ref":
                return self.load(st, v[1], v[2])
            return self.load_root(st, ("H", v))
        t = e[0]
        if t == "f":
            owner = self.T(e[3])
            if owner and owner.get("k") == "adt":
                on = norm(owner["name"])
                if on in TRANSPARENT:
                    return v
            if k == "adt":
                if e[1] < len(v[3]):
                    return v[3][e[1]]
                return ("top", "field")
            if k == "tup" or k == "arr":
                if e[1] < len(v[1]):
                    return v[1][e[1]]
            if k == "clo":
                if e[1] < len(v[2]):
                    return v[2][e[1]]
            if k == "upd":
                for kk, x in v[2]:
                    if kk == e[2]:
                        return x
                return self.walk(v[1], e, st)
            if k == "optref":
                return v[2]
            if k == "dc":
                if v[2] in ("Some", "Ok", "Continue") and e[1] == 0:
                    return ("pl", v[1])
                return ("fld", v, e[2])
            return ("fld", v, e[2])
        if t == "d":
            if k in ("adt", "upd", "optref"):
                return v
            return ("dc", v, e[2])
        if t == "i":
            return v  # handled in resolve
        if t == "ci":
            idx = e[1]
            if k == "arr" and idx[0] == "c" and isinstance(idx[1], int) and 0 <= idx[1] < len(v[1]):
                return v[1][idx[1]]
            if k == "upd":
                for kk, x in v[2]:
                    if kk == ("elem", idx):
                        return x
                    if kk[0] == "elem" and (idx[0] != "c" or kk[1][0] != "c") and v[1][0] in ("lv", "coll"):
                        return ("elem", v, idx)
                return self.walk(v[1], e, st)
            if k == "rep":
                return v[1]
            if k == "lv":
                x = self.pushed(v)
                if x is not None:
                    return x
            return ("elem", v, idx)
        if t == "s":
            return ("sub", v, e[1], e[2], e[3])
        if t == "ss":
            r = self.ssrange(v, e)
            if r is not None:
                return ("arr", v[1][r[0]:r[1]])
            if k == "upd":
                for kk, x in v[2]:
                    if kk == e:
                        return x
            return ("subslice", v, e[1], e[2])
        return v

    def pushed(self, v):
        """the element of a vector a loop fills with one and the same value"""
        d = self.lvdefs.get(v)
        if d is None or d.get("init") != ("arr", ()):
            return None
        b = d.get("back")
        if b is None or b[0] != "push" or b[1] != v:
            return None
        x = b[2]
        return None if any(y[0] in ("lv", "it", "idxr", "elem") for y in subterms(x)) else x

    def ssrange(self, v, e):
        """constant bounds of a range projection over a known array"""
        if v[0] != "arr" or not all(x[0] == "c" for x in e[2]):
            return None
        n = len(v[1])
        b = [x[1] for x in e[2]]
        lo, hi = {"Range": lambda: (b[0], b[1]), "RangeTo": lambda: (0, b[0]), "RangeFrom": lambda: (b[0], n),
                  "RangeInclusive": lambda: (b[0], b[1] + 1), "RangeToInclusive": lambda: (0, b[0] + 1)}.get(
                      e[1], lambda: (None, None))()
        if lo is None or not 0 <= lo <= hi <= n:
            return None
        return lo, hi

    def load(self, st, root, path):
        v = self.load_root(st, root)
        for e in path:
            v = self.walk(v, e, st)
        return self.pick(v, st)

    def setc(self, v, path, new, st):
        if not path:
            return new
        e = path[0]
        v = self.pick(v, st)
        if e == "*":
            raise AnalysisError("deref in set path")
        t = e[0]
        if t == "f":
            owner = self.T(e[3])
            if owner and owner.get("k") == "adt" and norm(owner["name"]) in TRANSPARENT:
                return self.setc(v, path[1:], new, st)
            sub = self.setc(self.walk(v, e, st), path[1:], new, st)
            if v[0] == "adt" and e[1] < len(v[3]):
                f = list(v[3])
                f[e[1]] = sub
                return ("adt", v[1], v[2], tuple(f))
            if v[0] in ("tup", "arr") and e[1] < len(v[1]):
                f = list(v[1])
                f[e[1]] = sub
                return (v[0], tuple(f))
            if v[0] == "clo" and e[1] < len(v[2]):
                f = list(v[2])
                f[e[1]] = sub
                return ("clo", v[1], tuple(f))
            return upd(v, e[2], sub)
        if t == "d":
            return self.setc(v, path[1:], new, st)
        if t == "ci":
            sub = self.setc(self.walk(v, e, st), path[1:], new, st)
            idx = e[1]
            if v[0] == "arr" and idx[0] == "c" and 0 <= idx[1] < len(v[1]):
                f = list(v[1])
                f[idx[1]] = sub
                return ("arr", tuple(f))
            return upd(v, ("elem", idx), sub)
        if t == "ss":
            r = self.ssrange(v, e)
            if r is not None:
                if path[1:]:
                    new = self.setc(("arr", v[1][r[0]:r[1]]), path[1:], new, st)
                if new[0] == "arr" and len(new[1]) == r[1] - r[0]:
                    els = new[1]
                elif new[0] == "rep":
                    els = (new[1],) * (r[1] - r[0])
                else:
                    els = tuple(("elem", new, C(i)) for i in range(r[1] - r[0]))
                return ("arr", v[1][:r[0]] + els + v[1][r[1]:])
            return upd(v, e, new)
        if t == "s":
            return upd(v, ("sub", e[1], e[2], e[3]), new)
        return self.setc(v, path[1:], new, st)

    def resolve(self, frame, p, st):
        """place -> (root, path)"""
        root = ("L", frame.id, p[0])
        path = ()
        for e in p[1:]:
            if e == "*":
                v = self.load(st, root, path)
                v = self.pick(v, st)
                if v[0] == "ref":
                    root, path = v[1], v[2]
                else:
                    root, path = ("H", v), ()
            elif e == "o":
                pass
            elif e[0] == "i":
                idx = self.load(st, ("L", frame.id, e[1]), ())
                path = path + (("ci", idx),)
            elif e[0] == "c":
                if e[2]:
                    path = path + (("ci", ("fromend", e[1])),)
                else:
                    path = path + (("ci", C(e[1])),)
            else:
                path = path + (tuple(e),)
        return root, path

    def read(self, frame, p, st):
        root, path = self.resolve(frame, p, st)
        return self.load(st, root, path)

    def store_to(self, st, root, path, val, where=None):
        if root[0] == "H" or root[0] == "P":
            self.sets.append((root, path, val, where))
        if not path:
            st.store[root] = val
        else:
            st.store[root] = self.setc(self.load_root(st, root), path, val, st)

    def write(self, frame, p, val, st, where=None):
        root, path = self.resolve(frame, p, st)
        self.store_to(st, root, path, val, where)

    # ------------------------------------------------------------ constants
    def konst(self, c):
        t = self.T(c["ty"])
        return self.kval(c["v"], t)

    def kval(self, v, t=None):
        if v is None:
            return ("top", "const")
        if "int" in v:
            x = v["int"]
            if isinstance(x, str):
                x = int(x)
            return C(x)
        if "float" in v:
            return C(float(v["float"]) if v["float"] not in ("NaN",) else "NaN")
        if "str" in v:
            return S(v["str"])
        if "tuple" in v:
            return ("tup", tuple(self.kval(x) for x in v["tuple"]))
        if "array" in v:
            return ("arr", tuple(self.kval(x) for x in v["array"]))
        if "ref" in v:
            x = self.kval(v["ref"])
            return ("ref", ("K", x), ())
        if "adt" in v:
            return ("adt", norm(v["adt"]), v["variant"], tuple(self.kval(x) for x in v["fields"]))
        if "zst" in v:
            t = self.T(v["zst"])
            return self.zst(t)
        if "fn" in v:
            return ("fn", instkey(v["fn"]))
        if "static" in v:
            return ("static", norm(v["static"]))
        if "uneval" in v:
            return ("const", norm(v["uneval"]))
        if "param" in v:
            return ("cparam", v["param"])
        return ("top", "opaque-const")

    def zst(self, t):
        k = t.get("k")
        if k == "fndef":
            inst = t.get("inst")
            return ("fn", instkey(inst) if inst else (None, norm(t["name"]), None))
        if k == "closure":
            inst = t.get("inst")
            return ("clo", inst["id"] if inst else None, ())
        if k == "tuple":
            return UNIT
        if k == "adt":
            return ("adt", norm(t["name"]), 0, ())
        if k == "array":
            return ("arr", ())
        return ("top", "zst")

    def operand(self, frame, o, st):
        if "c" in o:
            return self.konst(o["c"])
        if "rc" in o:
            return C(1) if o["rc"] == "OverflowChecks" else C(0)
        p = o.get("cp") or o.get("mv")
        return self.read(frame, p, st)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, frame, r, st, bb):
        k = r[0]
        if k == "use":
            return self.operand(frame, r[1], st)
        if k == "ref" or k == "addr" or k == "reborrow":
            p = r[2] if k != "addr" else r[1]
            root, path = self.resolve(frame, p, st)
            if root[0] == "H" and not path and root[1][0] in ("s", "sub", "iter", "elemref"):
                return root[1]
            return ("ref", root, path)
        if k == "agg":
            ops = tuple(self.operand(frame, o, st) for o in r[3])
            if r[1] == "adt":
                t = self.T(r[2])
                n = norm(t["name"])
                return ("adt", n, r[4], ops)
            if r[1] == "tuple":
                return ("tup", ops)
            if r[1] == "array":
                return ("arr", ops)
            if r[1] == "closure":
                t = self.T(r[2])
                inst = t.get("inst")
                return ("clo", inst["id"] if inst else None, ops)
            return ("top", "agg")
        if k in ("bin", "cbin"):
            a = self.operand(frame, r[2], st)
            b = self.operand(frame, r[3], st)
            op = r[1]
            checked = k == "cbin"
            if op.endswith("WithOverflow"):
                op = op[:-len("WithOverflow")]
                checked = True
            if op.endswith("Unchecked"):
                op = op[:-len("Unchecked")]
            v = self.binop(op, a, b, st)
            return ("tup", (v, C(0))) if checked else v
        if k == "un":
            v = self.operand(frame, r[2], st)
            if r[1] == "Not":
                if is_const(v) and isinstance(v[1], int):
                    ty = self.optype(frame, r[2])
                    if ty and ty.get("k") == "bool":
                        return C(1 - v[1])
                    return C(wrap_int(~v[1], ty))
                if v[0] == "un" and v[1] == "Not":
                    return v[2]
                return ("un", "Not", v)
            if r[1] == "Neg" and is_const(v) and isinstance(v[1], (int, float)):
                return C(-v[1])
            if r[1] == "PtrMetadata":
                return self.length(v, st)
            return ("un", r[1], v)
        if k == "cast":
            v = self.operand(frame, r[2], st)
            t = self.T(r[3])
            if "Transmute" in r[1] or "PtrToPtr" in r[1]:
                return v
            if "Unsize" in r[1] or "PointerCoercion" in r[1]:
                sty = self.optype(frame, r[2])
                return self.unsize(v, sty, t, st)
            if t and t.get("k") in ("int", "uint"):
                if is_const(v) and isinstance(v[1], int):
                    return C(wrap_int(v[1], t))
                if is_const(v) and isinstance(v[1], float):
                    return C(int(v[1]))
                sty = self.optype(frame, r[2])
                if sty and sty.get("s") == t["s"]:
                    return v
                lab = cast_label(sty and sty.get("s"), t["s"])
                if v[0] == "phi":
                    return ("phi", v[1], tuple((l, C(wrap_int(x[1], t)) if is_const(x) and isinstance(x[1], int)
                                                else ("cast", lab, x)) for l, x in v[2]))
                if v[0] == "cast" and v[1].rstrip("!") == t["s"]:
                    return v
                return ("cast", lab, v)
            if t and t.get("k") == "float":
                if is_const(v) and isinstance(v[1], (int, float)):
                    return C(float(v[1]))
                sty = self.optype(frame, r[2])
                return ("cast", cast_label(sty and sty.get("s"), t["s"]), v)
            return v
        if k == "discr":
            v = self.read(frame, r[1], st)
            return self.discr(v, self.T(r[2]), st)
        if k == "len":
            v = self.read(frame, r[1], st)
            return self.length(v, st)
        if k == "repeat":
            v = self.operand(frame, r[1], st)
            n = r[2]
            if n is not None and n <= 16:
                return ("arr", (v,) * n)
            return ("rep", v, n)
        return ("top", k)

    def unsize(self, v, sty, t, st):
        """remember the concrete type behind a trait object"""
        def inner(x):
            while x and x.get("k") in ("ref", "ptr"):
                x = self.T(x["ty"])
            if x and x.get("k") == "adt" and norm(x["name"]) in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
                a = [y for y in x["args"] if isinstance(y, int)]
                if a:
                    return inner(self.T(a[0]))
            return x
        a, b = inner(sty), inner(t)
        if a and a.get("k") == "array" and b and b.get("k") == "slice" and isinstance(a.get("len"), int):
            x = self.deref_all(v, st)
            if x[0] not in ("arr", "rep", "c", "s", "be"):
                self.lens[x] = a["len"]
        if b and b.get("k") == "dyn" and a and a.get("k") != "dyn":
            return ("dyn", a["s"], tuple(b["traits"]), v)
        return v

    def optype(self, frame, o):
        if "c" in o:
            return self.T(o["c"]["ty"])
        p = o.get("cp") or o.get("mv")
        if p is None:
            return None
        return self.place_ty(frame.body, p)

    def place_ty(self, body, p):
        t = self.T(body.locals[p[0]][0])
        for e in p[1:]:
            if e == "*":
                if t and "ty" in t:
                    t = self.T(t["ty"])
                elif t and t.get("k") == "adt" and t["args"]:
                    t = self.T(t["args"][0])
                else:
                    return None
            elif e[0] == "f":
                t = self.T(e[4])
            elif e[0] in ("i", "c"):
                t = self.T(t["ty"]) if t and "ty" in t else None
        return t

    def discr(self, v, t, st):
        v = self.pick(v, st)
        if v[0] == "upd":
            # enum updated in place: look through
            return self.discr(v[1], t, st)
        if v[0] == "adt":
            if t and t.get("k") == "adt":
                vs = t["variants"]
                if v[2] < len(vs):
                    d = vs[v[2]]["discr"]
                    return C(int(d) if isinstance(d, str) else d)
            return C(v[2])
        if v[0] == "phi":
            lv = [(l, self.discr(x, t, st)) for l, x in v[2] if x[0] != "undef"]
            return merge_vals(v[1], lv) if lv else ("undef",)
        if v[0] == "conv" and v[1] in ("as_ref", "as_mut", "asref"):
            return self.discr(v[2], t, st)
        if v[0] == "optref":
            return self.discr(v[1], t, st)
        return ("discr", v)

    def length(self, v, st):
        v = self.pick(v, st)
        if v[0] == "ref":
            v = self.pick(self.load(st, v[1], v[2]), st)
        if v[0] == "arr":
            return C(len(v[1]))
        if v in self.lens:
            return C(self.lens[v])
        if v[0] == "s":
            return C(len(v[1].encode()))
        if v[0] == "rep" and v[2] is not None:
            return C(v[2])
        if v[0] == "be":
            return C(v[1])
        if v[0] in ("conv",):
            return self.length(v[2], st)
        if v[0] == "dyn":
            return self.length(v[3], st)
        return ("len", v)

    def binop(self, op, a, b, st=None):
        if st is not None:
            a = self.pick(a, st)
            b = self.pick(b, st)
        if a[0] in ("c", "s") and b[0] in ("c", "s"):
            x, y = a[1], b[1]
            try:
                if op == "Add": return C(x + y)
                if op == "Sub": return C(x - y)
                if op == "Mul": return C(x * y)
                if op == "Div": return C(int(x / y) if isinstance(x, float) is False else x / y)
                if op == "Rem": return C(x % y)
                if op == "BitAnd": return C(x & y)
                if op == "BitOr": return C(x | y)
                if op == "BitXor": return C(x ^ y)
                if op == "Shl": return C(x << y)
                if op == "Shr": return C(x >> y)
                if op == "Eq": return C(int(x == y))
                if op == "Ne": return C(int(x != y))
                if op == "Lt": return C(int(x < y))
                if op == "Le": return C(int(x <= y))
                if op == "Gt": return C(int(x > y))
                if op == "Ge": return C(int(x >= y))
            except Exception:
                return ("bin", op, a, b)
        if op in ("Add", "Sub", "BitOr", "Shl", "Shr") and b == C(0):
            return a
        if op in ("Add", "BitOr") and a == C(0):
            return b
        if op == "Mul" and b == C(1):
            return a
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr", "Add", "Sub", "Mul"):
            for (p, q, sw) in ((a, b, False), (b, a, True)):
                if p[0] == "phi" and q[0] in ("c", "s"):
                    lv = [(l, self.binop(op, q, x, st) if sw else self.binop(op, x, q, st)) for l, x in p[2]]
                    if all(x[1][0] == "c" for x in lv):
                        return merge_vals(p[1], lv)
        if op in ("Eq", "Ne") and a == b and a[0] in ("p", "fld", "len"):
            return C(1 if op == "Eq" else 0)
        return ("bin", op, a, b)

    # ------------------------------------------------------------ execution
    def run(self, body, args, st=None):
        """analyse `body` applied to abstract arguments; returns (events, result value or None, state)"""
        st = st or State()
        seq = []
        v, st2 = self.call_body(body, args, st, seq, None)
        return seq, v, st2

    def call_body(self, body, args, st, seq, site):
        if len(self.stack) > self.max_depth:
            raise Budget("inlining depth at %s" % body.name)
        if self.stack.count(body.id) >= self.recursion + (1 if body.name.endswith("::visit") else 0):
            seq.append(("rec", body.name, site))
            return ("call", body.name, tuple(args)), st
        self.fid += 1
        fr = Frame(body, self.fid, len(self.stack))
        self.visited.add(body.id)
        st = st.copy()
        args = list(args)
        if body.spread is not None:
            # the last argument is passed as separate values: pack them
            n = body.spread - 1
            args = args[:n] + [("tup", tuple(args[n:]))]
        for i in range(body.argc):
            st.store[("L", fr.id, i + 1)] = args[i] if i < len(args) else ("top", "arg")
        self.stack.append(body.id)
        try:
            s, ends = self.exec(fr, 0, frozenset(), st)
        finally:
            self.stack.pop()
        seq.extend(s)
        fid = fr.id
        if "RET" in ends:
            st2 = ends["RET"]
            v = st2.store.get(("L", fid, 0), UNIT)
            v = self.pick(v, st2)
            self.cleanup(st2, fid)
            return v, st2
        if "ERR" in ends:
            st2 = ends["ERR"]
            v = st2.store.get(("L", fid, 0), ("top", "err"))
            self.cleanup(st2, fid)
            return v, st2
        return None, st

    def cleanup(self, st, fid):
        for k in [k for k in st.store if k[0] == "L" and k[1] == fid]:
            del st.store[k]

    def is_err(self, v):
        return v is not None and v[0] == "adt" and v[1] == RES and v[2] == 1

    def exec(self, fr, b, stops, st, first=False):
        seq = []
        acc = {}   # ends other than the main line
        body = fr.body
        g = cfg(body)

        def add_end(key, label, state):
            if key in acc:
                acc[key] = merge_states(("end", fr.body.name, key), [(0, acc[key]), (1, state)])
            else:
                acc[key] = state

        resume = False
        if isinstance(b, tuple):
            b, resume = b[1], True
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted in %s" % body.name)
            if resume:
                # re-entered at the terminator of b under a further assumption (nested alternatives)
                resume = False
                d = self.pick(self.operand(fr, body.blocks[b]["t"]["d"], st), st)
                r = self.exec_switch(fr, b, body.blocks[b]["t"], d, stops, st, seq, add_end, g)
                if r is None:
                    return seq, acc
                b, st = r
                first = False
                continue
            if b in stops and not first:
                add_end(b, None, st)
                return seq, acc
            if b in g.loops and b not in fr.active and not first:
                r = self.exec_loop(fr, b, stops, st, seq, add_end, g)
                if r is None:
                    return seq, acc
                b, st = r
                continue
            first = False
            bl = body.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    v = self.rvalue(fr, s[2], st, b)
                    self.write(fr, s[1], v, st, (body, b))
                elif s[0] == "sd":
                    pass
            t = bl["t"]
            k = t["k"]
            if k == "goto" or k == "assert":
                b = t["t"]
                continue
            if k == "drop":
                self.on_drop(fr, t, st, seq, b)
                b = t["t"]
                continue
            if k == "return":
                v = self.pick(st.store.get(("L", fr.id, 0), UNIT), st)
                if self.is_err(v):
                    add_end("ERR", None, st)
                else:
                    n = 0
                    while v[0] == "phi" and n < 20:
                        # drop definite-error alternatives of the result, and what they did to the state
                        lv = [(l, x) for l, x in v[2] if not all_err(x)]
                        if len(lv) != 1:
                            break
                        if self.refusals:
                            seq.extend(("guard", v[1], l, "err", (), (body, b)) for l, x in v[2] if all_err(x))
                        st.assume[v[1]] = lv[0][0]
                        v = lv[0][1]
                        st.store[("L", fr.id, 0)] = v
                        n += 1
                    add_end("RET", None, st)
                return seq, acc
            if k in ("unreachable", "resume", "abort"):
                return seq, acc
            if k == "call":
                r = self.call(fr, t, st, seq, b)
                if r is None:
                    return seq, acc
                v, st = r
                if t["t"] is None:
                    return seq, acc
                self.write(fr, t["d"], v, st, (body, b))
                b = t["t"]
                continue
            if k == "switch":
                d = self.pick(self.operand(fr, t["d"], st), st)
                r = self.exec_switch(fr, b, t, d, stops, st, seq, add_end, g)
                if r is None:
                    return seq, acc
                b, st = r
                continue
            raise AnalysisError("terminator " + k)

    def on_drop(self, fr, t, st, seq, b):
        pass

    def exec_switch(self, fr, b, t, d, stops, st, seq, add_end, g):
        ty = self.T(t.get("ty"))
        boolean = bool(ty and ty.get("k") == "bool")
        brs = [(int(x[0]), x[1]) for x in t["br"]]
        if d[0] == "c" and isinstance(d[1], int):
            dv = d[1]
            n = (ty.get("bytes") or 8) * 8 if ty else 64
            for val, tgt in brs:
                if val == dv or val == (dv & ((1 << n) - 1)) or val == (dv & ((1 << 64) - 1)):
                    return tgt, st
            return t["o"], st
        if d[0] == "phi" and (all(x[0] == "c" for _, x in d[2]) or (
                d[1] not in st.assume and not any(isinstance(l, tuple) for l, _ in d[2]) and const_leaves(d))):
            # split on the condition the phi was built from
            cond = d[1]
            groups = {}
            for l, x in d[2]:
                if x[0] == "phi":
                    groups.setdefault(("sw", b, l), []).append(l)
                    continue
                tgt = None
                for val, tg in brs:
                    if val == x[1]:
                        tgt = tg
                if tgt is None:
                    tgt = t["o"]
                groups.setdefault(tgt, []).append(l)
            if len(groups) == 1:
                return list(groups)[0], st
            arms = [(tuple(ls) if len(ls) > 1 else ls[0], tgt) for tgt, ls in groups.items()]
            arms = [((("in", l) if isinstance(l, tuple) and l and l[0] != "in" else l), tgt) for l, tgt in arms]
            key = cond
            return self.alt(fr, b, key, arms, stops, st, seq, add_end, g)
        if boolean:
            key, pol = canon_cond(d, True)
            if key in st.assume and st.assume[key] in (True, False):
                truth = st.assume[key] == pol
                tgt = None
                for val, tg in brs:
                    if val == int(truth):
                        tgt = tg
                return (tgt if tgt is not None else t["o"]), st
            arms = []
            seen = set()
            for val, tg in brs:
                arms.append((bool(val) == pol, tg))
                seen.add(val)
            for val in (0, 1):
                if val not in seen:
                    arms.append((bool(val) == pol, t["o"]))
            return self.alt(fr, b, key, arms, stops, st, seq, add_end, g)
        key = d
        if key in st.assume:
            lab = st.assume[key]
            if isinstance(lab, int):
                for val, tg in brs:
                    if val == lab:
                        return tg, st
                return t["o"], st
        # two-variant enums: make the otherwise arm explicit
        arms = []
        for val, tg in brs:
            arms.append((val, tg))
        if t["o"] in g.canret and fr.body.blocks[t["o"]]["t"]["k"] != "unreachable":
            lab = "else"
            if d[0] == "discr" and len(brs) == 1 and brs[0][0] in (0, 1):
                lab = 1 - brs[0][0]
            arms.append((lab, t["o"]))
        by = {}
        for l, tg in arms:
            by.setdefault(tg, []).append(l)
        arms = [((ls[0] if len(ls) == 1 else ("in", tuple(ls))), tg) for tg, ls in by.items()]
        if len(arms) == 1:
            return arms[0][1], st
        return self.alt(fr, b, key, arms, stops, st, seq, add_end, g)

    def alt(self, fr, b, key, arms, stops, st, seq, add_end, g):
        J = g.ipdom.get(b, -1)
        out = []
        fall = []
        nerr = 0
        for lab, tgt in arms:
            st2 = st.copy()
            st2.assume[key] = lab
            s2, ends = self.exec(fr, tgt, stops | ({J} if J != -1 else set()), st2)
            e2 = {k: v for k, v in ends.items() if k != "ERR"}
            if "ERR" in ends:
                add_end("ERR", lab, ends["ERR"])
            if not e2:
                fate = "err" if "ERR" in ends else "dead"
                nerr += 1
            else:
                fate = "fall" if J in e2 else "|".join(sorted("%s" % k for k in e2))
            out.append((lab, s2, fate))
            for k, v in e2.items():
                if k == J:
                    fall.append((lab, v))
                else:
                    add_end(k, lab, v)
        live = [a for a in out if a[2] not in ("err", "dead")]
        site = (fr.body, b)
        if len(live) == 1 and len(out) > 1:
            for lab, s2, fate in out:
                if fate in ("err", "dead"):
                    seq.append(("guard", key, lab, fate, tuple(s2), site))
            seq.extend(live[0][1])
            if fall:
                return J, fall[0][1]
            return None
        if all(not a[1] for a in out) and all(a[2] == "fall" for a in live) and not nerr:
            pass
        else:
            seq.append(("alt", key, tuple((l, tuple(s), f) for l, s, f in out), site))
        if not fall:
            return None
        return J, merge_states(key, fall)

    def exec_loop(self, fr, h, stops, st, seq, add_end, g):
        L = g.loops[h]
        exits = set()
        for x in L:
            for s in g.succ_all[x]:
                if s not in L and s in g.canret:
                    exits.add(s)
        fr.active.add(h)
        lid = (fr.body.name, h, fr.id)
        inner = frozenset(set(stops) | exits | {h})
        hst = st.copy()
        s2, ends = None, None
        un = self.unrolled(fr, h, L, inner, st, g)
        if un is not None:
            for e in un[2]:
                add_end("ERR", None, e)
            if un[1] is None:
                seq.extend(un[0])
                fr.active.discard(h)
                return None
        for it in range(8 if un is None else 0):
            s2, ends = self.exec(fr, h, inner, hst.copy(), first=True)
            back = ends.pop(h, None)
            if back is None:
                break
            new, changed = self.widen(lid, hst, back, fr)
            if not changed:
                break
            hst = new
        else:
            if un is None:
                raise Budget("loop fixpoint in %s" % fr.body.name)
            s2, ends, back = un[0], un[1], None
        fr.active.discard(h)
        site = (fr.body, h)
        if back is None:
            seq.extend(s2)
        else:
            seq.append(("loop", lid, tuple(s2), site))
        live = {}
        for k, v in ends.items():
            if k in exits and k not in stops:
                live[k] = v
            else:
                add_end(k, None, v)
        if not live:
            return None
        if len(live) == 1:
            k = list(live)[0]
            return k, live[k]
        # several exits: alternatives joined at the post-dominator of the header
        J = g.ipdom.get(h, -1)
        out = []
        fall = []
        key = ("loopexit",) + lid[:2]
        for k, v in sorted(live.items()):
            v = v.copy()
            if k == J:
                out.append((k, [], "fall"))
                fall.append((k, v))
                continue
            s3, e3 = self.exec(fr, k, stops | ({J} if J != -1 else set()), v)
            if "ERR" in e3:
                add_end("ERR", None, e3.pop("ERR"))
                if not e3:
                    out.append((k, s3, "err"))
                    continue
            out.append((k, s3, "fall" if J in e3 else ("|".join(str(x) for x in e3) or "dead")))
            for kk, vv in e3.items():
                if kk == J:
                    fall.append((k, vv))
                else:
                    add_end(kk, k, vv)
        if any(a[1] for a in out) or any(a[2] != "fall" for a in out):
            seq.append(("alt", key, tuple((l, tuple(s), f) for l, s, f in out), site))
        if not fall:
            return None
        return J, merge_states(key, fall)

    def unrolled(self, fr, h, L, inner, st, g):
        """(events, ends of the last round, states of error returns) of a loop over a literal of a few elements; None otherwise"""
        import models
        sub = [x for x in g.loops if x != h and x in L]
        if sub and not self.literals:
            return None
        key = None
        for b in L:
            if any(b in g.loops[x] for x in sub):
                continue
            for s in fr.body.blocks[b]["s"]:
                if s[0] == "=" and s[2][0] == "ref" and len(s[2][2]) == 1:
                    k = ("L", fr.id, s[2][2][0])
                    v = st.store.get(k)
                    if v is not None and v[0] == "iter":
                        if key is not None and key != k:
                            return None
                        key = k
        if key is None:
            return None
        if self.literals:
            import lists
            r = lists.items(self, st.store[key], st.copy(), None)
            if r is None:
                return None
            xs, st = r
        else:
            xs = models.literal_items(self, st.store[key], st, 6)
        if xs is None:
            return None
        cur, seq, errs = st.copy(), [], []
        uid = self.uid
        for x in xs + [None]:
            cur.store[key] = ("iter", "src", ("arr", ())) if x is None else ("iter", "one", x)
            s2, ends = self.exec(fr, h, inner, cur, first=True)
            seq.extend(s2)
            if x is None:
                if h in ends:
                    return None
                return seq, ends, errs
            back = ends.pop(h, None)
            if "ERR" in ends:
                errs.append(ends.pop("ERR"))
            if ends and back is None and self.literals:
                return seq, ends, errs
            if ends:
                return None         # leaves early
            if back is None:
                return seq, None, errs
            cur = back

    def widen(self, lid, a, b, fr):
        out = a.copy()
        changed = False
        for k, vb in b.store.items():
            if k in a.store:
                va = a.store[k]
            elif k[0] == "H":
                va = k[1]
            else:
                continue
            if va == vb:
                continue
            w = self.widen_val(lid, (k,), va, vb)
            if w != va:
                changed = True
                out.store[k] = w
        for c in list(out.assume):
            if b.assume.get(c) != out.assume[c]:
                del out.assume[c]
                changed = True
        return out, changed

    def widen_val(self, lid, key, va, vb):
        if va == vb:
            return va
        if va[0] == "lv" and va[1] == (lid, key):
            self.lvdefs.setdefault(va, {})["back"] = vb
            return va
        if va[0] == "adt" and vb[0] == "adt" and va[1:3] == vb[1:3] and len(va[3]) == len(vb[3]):
            return ("adt", va[1], va[2], tuple(self.widen_val(lid, key + (i,), x, y)
                                               for i, (x, y) in enumerate(zip(va[3], vb[3]))))
        if va[0] == "tup" and vb[0] == "tup" and len(va[1]) == len(vb[1]):
            return ("tup", tuple(self.widen_val(lid, key + (i,), x, y) for i, (x, y) in enumerate(zip(va[1], vb[1]))))
        if va[0] == "iter" and vb[0] == "iter" and va[1:3] == vb[1:3]:
            return va
        ba, da = (va[1], dict(va[2])) if va[0] == "upd" else (va, {})
        bb, db = (vb[1], dict(vb[2])) if vb[0] == "upd" else (vb, {})
        if ba == bb and (da or db):
            out = []
            for k in list(da) + [x for x in db if x not in da]:
                x = da.get(k) or default_comp(ba, k)
                y = db.get(k) or default_comp(ba, k)
                out.append((k, self.widen_val(lid, key + (k,), x, y)))
            return ("upd", ba, tuple(sorted(out, key=repr)))
        lv = ("lv", (lid, key))
        d = self.lvdefs.setdefault(lv, {})
        d.setdefault("init", va)
        d["back"] = vb
        return lv

    # ------------------------------------------------------------ calls
    def call(self, fr, t, st, seq, bb):
        f = t["f"]
        args = [self.operand(fr, a, st) for a in t["a"]]
        site = (fr.body, bb)
        if f.get("kind") == "indirect":
            fv = self.pick(self.operand(fr, f["op"], st), st)
            return self.call_value(fv, args, st, seq, site, self.T(f["ty"]))
        if t["t"] is None:
            seq_name = norm(f.get("decl") or f["def"])
            st_ = self.on_panic(fr, bb, seq_name, args, seq)
            return None
        return self.dispatch(f, args, st, seq, site, fr, t)

    def on_panic(self, fr, bb, name, args, seq):
        return None

    def dispatch(self, f, args, st, seq, site, fr=None, t=None):
        name = norm(f["def"])
        decl = norm(f.get("decl") or f["def"])
        for nm in (name, decl):
            h = self.hooks.get(nm)
            if h is not None:
                r = h(self, CallCtx(f, name, decl, args, st, seq, site, fr, t))
                if r is not NotImplemented:
                    return r
        for pfx, h in self.prefix_hooks:
            if name.startswith(pfx) or decl.startswith(pfx):
                r = h(self, CallCtx(f, name, decl, args, st, seq, site, fr, t))
                if r is not NotImplemented:
                    return r
        if f["kind"] == "virtual":
            # devirtualise when the concrete type is known
            self_v = self.deref_all(args[0], st) if args else ("top",)
            x = args[0]
            n = 0
            while n < 6 and x[0] in ("ref", "conv", "phi"):
                if x[0] == "ref":
                    x = self.pick(self.load(st, x[1], x[2]), st)
                elif x[0] == "conv":
                    x = x[2]
                else:
                    break
                n += 1
            if x[0] == "dyn":
                b = self.impl_method(x[1], decl)
                if b is not None:
                    v, st2 = self.call_body(b, [x[3]] + args[1:], st, seq, site)
                    return None if v is None else (v, st2)
            seq.append(("vcall", decl, tuple(args), site))
            u = ("call", decl, tuple(self.norm_arg(a, st) for a in args))
            return u, st
        bid = f.get("id")
        if bid and bid in self.facts.bodies and name not in self.opaque and decl not in self.opaque and \
                (self.inline is None or self.inline(name, decl, len(self.stack))):
            b = self.facts.bodies[bid]
            if b.spread is None and decl.startswith("std::ops::Fn") and "{closure" in b.name and len(args) == 2 and args[1][0] == "tup":
                args = [args[0]] + list(args[1][1])       # a closure takes the arguments one by one
            v, st2 = self.call_body(b, args, st, seq, site)
            return None if v is None else (v, st2)
        return self.external(f, name, decl, args, st, seq, site, fr, t)

    def impl_method(self, tystr, decl):
        tr, _, m = decl.rpartition("::")
        want = "<%s as %s>::%s" % (norm(tystr), tr, m)
        alt = norm("<%s::%s as %s>::%s" % (self.facts.crate, tystr, tr, m))
        for w in (want, alt):
            r = self.facts.find(w)
            if r:
                return r[0]
        return None

    def deref_all(self, v, st, n=6):
        v = self.pick(v, st)
        while n and v[0] == "ref":
            v = self.pick(self.load(st, v[1], v[2]), st)
            n -= 1
        return v

    norm_arg = deref_all

    def call_value(self, fv, args, st, seq, site, ty=None):
        """call of a closure / fn pointer value with already-spread args"""
        fv = self.deref_all(fv, st)
        if fv[0] == "dyn":
            fv = self.deref_all(fv[3], st)
        if fv[0] == "fn":
            fid, name, dname = fv[1][:3]
            f = {"def": name or "?", "decl": dname or name or "?", "kind": "item", "id": fid, "args": [], "name": name}
            return self.dispatch(f, args, st, seq, site)
        if fv[0] == "clo" and fv[1] in self.facts.bodies:
            b = self.facts.bodies[fv[1]]
            # a closure body takes the environment (by reference or value) then its parameters
            root = ("C", self.fresh())
            st = st.copy()
            st.store[root] = fv
            envt = self.T(b.locals[1][0])
            env = ("ref", root, ()) if envt and envt.get("k") == "ref" else fv
            v, st2 = self.call_body(b, [env] + list(args), st, seq, site)
            return None if v is None else (v, st2)
        if fv[0] == "phi":
            outs = []
            for l, x in fv[2]:
                s2 = []
                r = self.call_value(x, args, st.copy(), s2, site)
                if r is not None:
                    outs.append((l, tuple(s2), r))
            if not outs:
                return None
            if len(outs) == 1:
                seq.extend(outs[0][1])
                return outs[0][2]
            seq.append(("alt", fv[1], tuple((l, s, "fall") for l, s, _ in outs), site))
            stm = merge_states(fv[1], [(l, r[1]) for l, _, r in outs])
            return merge_vals(fv[1], [(l, r[0]) for l, _, r in outs]), stm
        seq.append(("icall", fv, tuple(self.deref_all(a, st) for a in args), site))
        return ("icallr", fv, tuple(self.deref_all(a, st) for a in args)), st

    def external(self, f, name, decl, args, st, seq, site, fr, t):
        import models
        h = models.lookup(decl, name)
        if h is not None:
            c = CallCtx(f, name, decl, args, st, seq, site, fr, t)
            r = h(self, c)
            if r is not NotImplemented:
                return r
        # unknown external: pure function of its arguments; closures passed to it may run any number of times;
        # what its &mut arguments point to is unknown afterwards
        self.unknown[decl] = self.unknown.get(decl, 0) + 1
        st = st.copy()
        for a in args:
            x = a
            if x[0] == "clo" or (x[0] == "fn" and x[1][0] in self.facts.bodies):
                s2 = []
                n = 2
                if x[0] == "clo" and x[1] in self.facts.bodies:
                    n = self.facts.bodies[x[1]].argc - 1
                elif x[0] == "fn":
                    n = self.facts.bodies[x[1][0]].argc
                fa = [("cbarg", decl, i) for i in range(n)]
                r = self.call_value(x, fa, st, s2, site)
                if s2:
                    seq.append(("loop", ("ext", decl), tuple(s2), site))
                if r is not None:
                    st = r[1]
        if fr is not None and t is not None:
            for o, a in zip(t["a"], args):
                ty = self.optype(fr, o)
                if ty and ty.get("k") == "ref" and ty.get("mut") and a[0] == "ref":
                    old = self.load(st, a[1], a[2])
                    self.store_to(st, a[1], a[2], ("mut", decl, old), site)
        return ("call", decl, tuple(self.deref_all(a, st) for a in args)), st


def upd(v, key, val):
    if v[0] == "upd":
        d = dict(v[2])
        d[key] = val
        return ("upd", v[1], tuple(sorted(d.items(), key=repr)))
    return ("upd", v, ((key, val),))


def instkey(i):
    return (i.get("id"), norm(i["def"]), norm(i.get("decl") or i["def"]), )


class CallCtx:
    __slots__ = ("f", "name", "decl", "args", "st", "seq", "site", "fr", "t")

    def __init__(self, f, name, decl, args, st, seq, site, fr, t):
        self.f, self.name, self.decl, self.args, self.st, self.seq, self.site, self.fr, self.t = \
            f, name, decl, args, st, seq, site, fr, t
