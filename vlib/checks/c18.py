"""C18: a derived struct takes each of its fields from the field's own branch."""
import re
import c16
from absint import C, NONE, Interp, ok, show, some, strip, subterms
from core import rel
from facts import norm

RULE = ("The code generated by derive(ReadFromTree) for the structs of a witness program (every attribute, alone and combined, nested "
        "and sliced) is interpreted abstractly from ReadFromTree::from_tree on: ReaderTree::branch and Branch::as_iter answer "
        "with opaque branches and iterators that carry the name and the type they were asked for. The iterator it returns is a "
        "concrete term; one step of it is interpreted and must build the struct out of one element of each iterator, the iterator "
        "of every field being the one of the branch the documentation names, read as the type of the field.")
ASSUMPTIONS = ["the macro treats every field on its own, so that structs with other fields and the same attributes are generated alike"]

NEXT = "std::iter::Iterator::next"
INNER = [("x", "x", "i32"), ("y", "y", "f64")]
OUTER = [("first", "first", "i16"), ("vec", "vec", "Vec<f32>"), ("name", "name", "String"), ("inner", "inner", INNER), ("last", "last", "u8")]
# field, the name of its branch inside the struct ("=" in front: an absolute name), what it holds
PREFIXED = [("a", "pre_a", "i32"), ("s", "pre_named", "String"), ("abs", "=elsewhere", "f64"), ("inner", "pre_inner", INNER)]
ATTRIBUTES = [("a", "b", "i32"), ("b", "b", "u8"), ("l", "loc_l", "Vec<f64>"), ("both", "q.m", "i16"), ("z", "=top.z", "u32"),
              ("renamed", "in", INNER), ("abs", "=root", INNER), ("mid", "mid", PREFIXED), ("out", "out", OUTER)]
POINT = [("x", "x", "i32"), ("y", "why", "f64"), ("w", "=weight", "i16")]
STRUCTS = {"Inner": INNER, "Outer": OUTER, "Deeper": [("at", "at", ATTRIBUTES), ("n", "n", "u64")],
           "Points": [("n", "n", "i32"), ("points", "points", ("each", POINT)), ("rest", "more", ("each", POINT)), ("last", "last", "u16")]}


def short(t):
    return re.sub(r"\w+::", "", t.replace(" ", ""))


def text(v):
    """a string put together from known pieces"""
    v = strip(v)
    if v[0] == "ext":
        parts = [text(v[1]), chr(v[2][1]) if v[2][0] == "c" else text(v[2])]
        return None if None in parts else "".join(parts)
    return c16.text(v)


def leaves(spec, parent=None, path=()):
    """(path, branch, type, sliced) of every leaf of a struct"""
    for f, name, what in spec:
        full = name[1:] if name[0] == "=" else (parent + "." if parent else "") + name
        if isinstance(what, tuple):
            for p, b, t, _ in leaves(what[1], full, path + (f,)):
                yield p, b, "Slice<%s>" % t, True
        elif isinstance(what, list):
            yield from leaves(what, full, path + (f,))
        else:
            yield path + (f,), full, what, False


class Derived:
    def __init__(self, ctx):
        self.W = ctx.facts("witness")
        self.by = {}
        for b in self.W.mono():
            self.by.setdefault(b.name, b)
        self.missing = None

    def hooks(self):
        asked, nexts = [], []

        def branch(I, c):
            n = text(I.deref_all(c.args[1], c.st))
            asked.append((n, c.site))
            if n is not None and n == self.missing:
                return NONE, c.st
            return some(("bn", n, len(asked))), c.st

        def as_iter(I, c):
            b = I.deref_all(c.args[0], c.st)
            if b[0] != "bn":
                return NotImplemented
            a = c.f.get("args") or []
            return ok(("bi", b[1], short(self.W.tstr(a[0])) if a else None, b[2])), c.st

        def step(I, c, it, st):
            """one element of the iterator `it`: (value, state), None if it is not understood"""
            if it[0] == "dyn":
                return step(I, c, it[3], st)
            if it[0] == "bi":
                nexts.append(it)
                return some(("item", it, nexts.count(it) - 1)), st
            if it[0] == "iter" and it[1] == "map":
                r = step(I, c, it[2], st)
                if r is None or r[0][0] != "adt" or len(r[0][3]) != 1:
                    return None
                q = I.call_value(it[3], [r[0][3][0]], r[1], c.seq, c.site)
                return None if q is None else (some(q[0]), q[1])
            if it[0] == "iter" and it[1] == "src":
                return step(I, c, it[2] if it[2][0] != "ref" else I.deref_all(it[2], st), st)
            if it[0] == "adt":
                b = self.by.get("<%s as %s>::next" % (it[1], NEXT.rpartition("::")[0]))
                if b is not None:
                    root = ("C", I.fresh())
                    st = st.copy()
                    st.store[root] = it
                    v, st = I.call_body(b, [("ref", root, ())], st, c.seq, c.site)
                    return None if v is None else (v, st)
            return None

        def nxt(I, c):
            it = I.deref_all(c.args[0], c.st)
            if not any(x[0] == "bi" for x in subterms(it)):
                return NotImplemented
            r = step(I, c, it, c.st)
            return NotImplemented if r is None else r
        h = {"oxyroot::rtree::tree::reader::ReaderTree::branch": branch, "oxyroot::rtree::branch::Branch::as_iter": as_iter, NEXT: nxt}
        return h, asked, nexts, step

    def read(self, name):
        """(names asked for, iterators stepped, value of one step, state, interpreter) of from_tree for a struct"""
        h, asked, nexts, step = self.hooks()
        b = self.by.get("<witness::%s as oxyroot::rtree::tree::traits::ReadFromTree>::from_tree" % name)
        if b is None:
            return None
        I = Interp(self.W, hooks=h)
        I.recursion = 8
        seq, v, st = I.run(b, [("tree",)])
        item = None
        if v is not None and v[0] == "adt" and len(v[3]) == 1 and self.missing is None:
            class Call:
                pass
            c = Call()
            c.seq, c.site = seq, None
            r = step(I, c, v[3][0], st)
            if r is not None:
                item, st = r
                item = item[3][0] if item[0] == "adt" and len(item[3]) == 1 else None
        return asked, nexts, item, st, I, v, b


def base(v):
    """the element of an iterator a value is (a part of)"""
    while v[0] in ("fld", "dc", "conv", "deref"):
        v = v[2] if v[0] == "conv" else v[1]
    return v


def each(I, v):
    """what every element of a list is, if all are made alike"""
    v = strip(v)
    if v[0] == "lv":
        d = I.lvdefs.get(v) or {}
        b = d.get("back") or ("none",)
        return b[2] if d.get("init") == ("arr", ()) and b[0] == "push" and b[1] == v else None
    return v[1] if v[0] == "coll" else None


def check(ctx):
    D = Derived(ctx)
    for name, spec in sorted(STRUCTS.items()):
        r = D.read(name)
        if r is None:
            ctx.open("the witness has no ReadFromTree::from_tree for %s" % name)
            continue
        asked, nexts, item, st, I, v, b = r
        where = rel(b.where())
        whats = {}

        def leaf(path, v, branch, ty):
            """the element of which branch, read as what"""
            sub = ".".join((name,) + path)
            x = base(v)
            its = {y for y in subterms(v) if y[0] == "bi"}
            if x[0] != "item" or len(its) != 1:
                if its and all(y[1] is not None for y in its) and branch not in {y[1] for y in its} or v[0] in ("c", "s"):
                    ctx.bad("takes", sub, where, "field %s is %s, no element of its branch %r" % (sub, show(v)[:80], branch))
                else:
                    ctx.open("what field %s gets is not decided: %s" % (sub, show(v)[:100]))
                return None
            if x[1][1] is None:
                ctx.open("the name of the branch of field %s is not decided" % sub)
            else:
                ctx.ob("takes", sub, where, x[1][1] == branch, "field %s is read from branch %r" % (sub, x[1][1])
                       + ("" if x[1][1] == branch else ", not %r" % branch))
            ctx.ob("type", sub, where, x[1][2] == ty, "field %s is read as %s" % (sub, x[1][2]) + ("" if x[1][2] == ty else ", not %s" % ty))
            ctx.ob("once", sub, where, nexts.count(x[1]) == 1 and x[2] == 0,
                   "the iterator of %s is stepped %d times per entry" % (sub, nexts.count(x[1])))
            if whats.setdefault(x[1], sub) != sub:
                ctx.bad("once", sub, where, "%s and %s take their values from one iterator" % (sub, whats[x[1]]))
            return x

        def struct(path, v, spec, parent, sliced=None):
            sub = ".".join((name,) + path)
            v = strip(v)
            if v[0] != "adt" or len(v[3]) != len(spec):
                return ctx.open("the value of %s is not a struct put together here: %s" % (sub, show(v)[:100]))
            for (f, n, what), x in zip(spec, v[3]):
                full = n[1:] if n[0] == "=" else (parent + "." if parent else "") + n
                p = path + (f,)
                if isinstance(what, tuple):
                    sl = each(I, x)
                    if sl is None:
                        ctx.open("the elements of %s are not decided: %s" % (".".join((name,) + p), show(x)[:100]))
                        continue
                    struct(p, sl, what[1], full, [])
                elif isinstance(what, list):
                    struct(p, x, what, full, sliced)
                elif sliced is None:
                    leaf(p, x, full, what)
                else:
                    x = strip(x)
                    if x[0] != "elem":
                        ctx.open("which element field %s gets is not decided: %s" % (f, show(x)[:100]))
                        continue
                    it = leaf(p, x[1], full, "Slice<%s>" % what)
                    sliced.append((p, x[2], it))
            if sliced:
                index(path, sliced)

        def index(path, sliced):
            """all fields of element i are element i of their slices, for all i"""
            sub = ".".join((name,) + path)
            idx = {i for _, i, _ in sliced}
            if len(idx) != 1:
                return ctx.bad("each", sub, where, "the fields of an element of %s come from different places of their slices: %s"
                               % (sub, ", ".join(show(i)[:60] for i in idx)))
            i = idx.pop()
            its = [x for _, _, x in sliced]
            if i[0] == "idxr":
                lo, hi = strip(i[1]), strip(i[2])
                full = hi[0] == "len" and base(hi[1]) in its
                if lo[0] == "c" and full:
                    return ctx.ob("each", sub, where, lo == C(0), "the elements of %s start at %s" % (sub, show(lo)))
                if lo == C(0) and hi[0] == "c":
                    return ctx.bad("each", sub, where, "there are always %s elements in %s" % (show(hi), sub))
                return ctx.open("which elements %s has is not decided: %s" % (sub, show(i)[:100]))
            if i == ("it",):
                return ctx.ok("each", sub, where, "every element of the slices, in order")
            ctx.open("which elements %s has is not decided: %s" % (sub, show(i)[:100]))

        if item is None:
            ctx.open("what from_tree of %s hands out is not decided: %s" % (name, show(v)[:100] if v else "it always fails"))
            continue
        struct((), item, spec, None)
        want = list(leaves(spec))
        extra = [n for n, _ in asked if n is not None and n not in [w for _, w, _, _ in want]]
        ctx.ob("asks", name, where, not extra, "%d branches are asked for" % len(asked) if not extra else
               "a branch %s is asked for, which no field of %s has" % (", ".join(map(repr, extra)), name))
        for w in sorted({w for _, w, _, _ in want}):
            D.missing = w
            v = D.read(name)[5]
            D.missing = None
            no = v is None or v[0] == "adt" and v[1].endswith("Result") and v[2] == 1
            ctx.ob("missing", "%s:%s" % (name, w), where, no, "without a branch %r from_tree of %s %s"
                   % (w, name, "refuses" if no else "answers all the same"))
    for rule, n in (("takes", 36), ("each", 2), ("missing", 32)):
        ctx.floor(rule, len([o for o in ctx.obl if o[0] == rule]), n)
