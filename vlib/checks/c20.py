"""C20: a branch is found by its name, wherever it is in the tree."""
import members
import models
from absint import C, NONE, Interp, S, State, show, some, strip, subterms
from core import rel
from facts import norm

RULE = ("ReaderTree::branch, branches and branches_r and Branch::branch, branches and branches_r are interpreted abstractly on trees whose "
        "branches are terms with known names and kinds at up to four levels (everything else in them is unknown). For every name "
        "that occurs the answer must be the first branch of that name in the order of the tree (a branch before those inside it), "
        "for other names None; the lists must hold every branch once, in that order.")
ASSUMPTIONS = ["the functions treat a branch by its name, its kind and the branches inside it only (whatever else they look at is "
               "reported as undecided)"]
BRANCH = "oxyroot::rtree::branch::Branch"
TREE = "oxyroot::rtree::tree::reader::ReaderTree"
# trees: (name, kind, branches inside)
TREES = {
    "empty": [],
    "flat": [("a", 0, []), ("ab", 0, []), ("b", 1, []), ("a", 1, []), ("", 0, [])],
    "nested": [("ev", 1, [("ev.x", 1, []), ("ev.y", 0, [("ev.y.k", 0, [("deep", 1, []), ("x", 0, [])])])]), ("x", 0, []),
               ("other", 0, [("x", 1, []), ("ev", 0, [])]), ("last", 1, [("z", 1, [])])],
    "twice": [("p", 1, [("p", 0, [("q", 1, [])]), ("q", 0, [])]), ("q", 0, [("p", 1, []), ("r", 0, [])]), ("r", 1, [])],
}


def preorder(bs, path=()):
    for i, (n, k, sub) in enumerate(bs):
        yield path + (i,), n
        yield from preorder(sub, path + (i,))


class Trees:
    def __init__(self, ctx):
        self.ctx, self.F = ctx, ctx.facts()
        m = members.Members(ctx, self.F, "TNamed")
        f = m.fields.get("fName")
        self.why = m.why or (None if f and f[0] == "fld" and f[1] == ("p", "self") else "the name of a TNamed is not a field")
        if self.why:
            return
        self.named, self.fname = m.struct, f[2]

    def type(self, ti):
        t = self.F.types[ti]
        return t if t.get("k") == "adt" else None

    def build(self, ti, own, tag, depth=6):
        """a value of type `ti`: `own` gives (by type) the parts that are known, the rest is unknown"""
        t = self.type(ti)
        s = norm(self.F.tstr(ti))
        for want, v in own:
            if s == want or s.endswith("::" + want):
                return v
        n = t and norm(t["name"])
        if t and t.get("kind") == "Struct" and depth and n in self.F.adt_by_name and n.startswith("oxyroot::"):
            a = t if t.get("variants") else self.F.adt_by_name[n]
            fs = a["variants"][0]["fields"]
            return ("adt", n, 0, tuple(self.build(ty, own, tag + (f,), depth - 1) for f, ty in fs))
        return ("sym",) + tag

    def branch(self, spec, path):
        name, kind, sub = spec
        fs = self.F.adt_by_name[self.named]["variants"][0]["fields"]
        nm = ("adt", self.named, 0, tuple(S(name) if f == self.fname else ("sym", path, f) for f, _ in fs))
        subs = ("arr", tuple(self.branch(s, path + (i,)) for i, s in enumerate(sub)))
        own = [(self.named.split("::", 1)[1], nm), ("Vec<rtree::branch::Branch>", subs), (self.named, nm)]
        v = self.F.adt_by_name[BRANCH]["variants"][kind]
        return ("adt", BRANCH, kind, (self.build(v["fields"][0][1], own, (path,)),))

    def tree(self, bs):
        arr = ("arr", tuple(self.branch(s, (i,)) for i, s in enumerate(bs)))
        own = [("Vec<rtree::branch::Branch>", arr)]
        a = self.F.adt_by_name[TREE]
        return ("adt", TREE, 0, tuple(self.build(ty, own, ((), f)) for f, ty in a["variants"][0]["fields"]))


def run(T, fn, v, *args):
    """(interpreter, result, state) of a method applied to a known tree or branch; None if there is no such function"""
    bs = [b for b in T.F.mono() if b.name == fn]
    if len(bs) != 1:
        return None
    I = Interp(T.F)
    I.recursion, I.literals = 12, True
    st = State()
    st.store[("C", "it")] = v
    _, r, st = I.run(bs[0], [("ref", ("C", "it"), ())] + list(args), st)
    return I, r, st, bs[0]


def items(I, v, st):
    """the branches in a list or an iterator"""
    v = I.deref_all(v, st)
    if v[0] == "iter":
        xs = models.literal_items(I, v, st, 100)
        if xs is None and v[1] == "src" and I.deref_all(v[2], st) == ("arr", ()):
            xs = []
    else:
        xs = []
        while v[0] == "push":
            xs.insert(0, v[2])
            v = strip(v[1])
        xs = list(v[1]) + xs if v[0] == "arr" else None
    return None if xs is None else [I.deref_all(x, st) for x in xs]


def check(ctx):
    T = Trees(ctx)
    if T.why:
        ctx.open("names of branches: %s" % T.why)
        ctx.floor("find", 0, 30)
        return
    for tn, bs in TREES.items():
        ctx.attempt(tn, tree, ctx, T, tn, bs)
    for rule, n in (("find", 100), ("list", 40)):
        ctx.floor(rule, len([o for o in ctx.obl if o[0] == rule]), n)


def tree(ctx, T, tn, bs):
    known = {}

    def note(v, spec, path):
        known[v] = path
        for i, s in enumerate(spec[2]):
            note(T.branch(s, path + (i,)), s, path + (i,))
    for i, s in enumerate(bs):
        note(T.branch(s, (i,)), s, (i,))
    names = sorted({n for _, n in preorder(bs)} | {"x", "ab", "ev.", "a.b", "EV", "missing", ""})
    look(ctx, T, known, tn, TREE, T.tree(bs), bs, (), names)
    for v, path in list(known.items()):
        sub = bs
        for i in path[:-1]:
            sub = sub[i][2]
        look(ctx, T, known, "%s, inside branch %d" % (tn, list(known).index(v) + 1), BRANCH, v, sub[path[-1]][2], path, names)


def look(ctx, T, known, what, cls, v, bs, at, names):
    order = [(at + p, n) for p, n in preorder(bs)]
    tell = lambda p: "none" if p is None else "branch %r at %s" % (dict(order).get(p, "?"), ".".join(map(str, p)))
    for q in names:
        r = run(T, cls + "::branch", v, S(q))
        if r is None:
            return ctx.open("%s::branch is not found" % cls)
        I, x, st, b = r
        sub = "%s: %r" % (what, q)
        x = strip(x) if x is not None else ("none",)
        if x == NONE:
            got = None
        elif x[0] == "adt" and len(x[3]) == 1 and I.deref_all(x[3][0], st) in known:
            got = known[I.deref_all(x[3][0], st)]
        else:
            ctx.open("branch(%r) in tree %s: the answer is not decided: %s" % (q, what, show(x)[:100]))
            continue
        want = next((p for p, n in order if n == q), None)
        ctx.ob("find", sub, rel(b.where()), got == want, "branch(%r) answers %s" % (q, tell(got)) + ("" if got == want else ", not %s" % tell(want)))
    for fn, want in (("branches", [at + (i,) for i in range(len(bs))]), ("branches_r", [p for p, _ in order])):
        r = run(T, cls + "::" + fn, v)
        if r is None:
            ctx.open("%s::%s is not found" % (cls, fn))
            continue
        I, x, st, b = r
        xs = items(I, x, st) if x is not None else None
        if xs is None or any(y not in known for y in xs):
            ctx.open("%s in tree %s: the list is not decided: %s" % (fn, what, show(x)[:100] if x is not None else "no answer"))
            continue
        got = [known[y] for y in xs]
        ctx.ob("list", "%s: %s" % (what, fn), rel(b.where()), got == want, "%s lists %d branches" % (fn, len(got)) if got == want else
               "%s lists %s, not %s" % (fn, ", ".join(map(tell, got)), ", ".join(map(tell, want))))
