"""C19: a derived struct gives each of its fields to the field's own branch."""
import c18
from absint import C, NONE, Interp, show, some, strip, subterms
from c18 import short, text
from core import rel

RULE = ("The code generated by derive(WriteToTree) for the structs of a witness program (nested to any depth it contains) is interpreted "
        "abstractly from WriteToTree::to_tree on: WriterTree::new_branch and WriterTree::add_callback keep what they are given. "
        "Entries are then played the way WriterTree::write does (decided on its loop: every callback with Before, in the order "
        "they were added, then one element of every branch): in each entry every branch must get the value its field has in one "
        "and the same struct of the source iterator, and the branches are named the way the derived reader asks for them.")
ASSUMPTIONS = ["the macro treats every field on its own, so that structs with other fields are generated alike",
               "cells shared by Rc are only reached through the values the generated code creates"]

NEXT = "std::iter::Iterator::next"
TREE = "oxyroot::rtree::tree::writer::WriterTree::"
STATE = "oxyroot::rtree::tree::writer::StateCallBack"
WINNER = [("x", "x", "i32"), ("y", "y", "f64")]
WOUTER = [("first", "first", "i16"), ("name", "name", "String"), ("inner", "inner", WINNER), ("last", "last", "u8")]
STRUCTS = {"WInner": WINNER, "WOuter": WOUTER,
           "WDeeper": [("inner", "inner", WINNER), ("list", "list", "Vec<i32>"), ("at", "at", WOUTER), ("flag", "flag", "bool"),
                       ("other", "other", WINNER)]}


class Call:
    def __init__(self, seq):
        self.seq, self.site, self.fr = seq, None, None


class Play:
    """one derived struct: its branches and callbacks, and what happens in each entry"""
    def __init__(self, W, name, entries):
        self.cells = set()
        self.W, self.branches, self.callbacks, self.n, self.entries = W, [], [], 0, entries
        self.I = Interp(W, hooks=self.hooks())
        self.I.recursion = 8
        bs = [b for b in W.mono() if b.name == "<witness::%s as oxyroot::rtree::tree::traits::WriteToTree>::to_tree" % name]
        self.body = bs[0] if bs else None
        if self.body is not None:
            self.seq, self.v, self.st = self.I.run(self.body, [("source",), ("ref", ("C", "tree"), ())])

    def hooks(self):
        def new_branch(I, c):
            a = c.f.get("args") or []
            self.branches.append((text(I.deref_all(c.args[1], c.st)), short(self.W.tstr(a[0])) if a else None, c.args[2]))
            return ("tup", ()), c.st

        def add_callback(I, c):
            self.callbacks.append(c.args[1])
            return ("tup", ()), c.st

        def cell(I, c):
            root = ("C", I.fresh())
            st = c.st.copy()
            st.store[root] = c.args[0]
            self.cells.add(root)
            return ("cell", root), st

        def root(I, c):
            v = I.deref_all(c.args[0], c.st)
            return ("ref", v[1], ()) if v[0] == "cell" else None

        def borrow(I, c):
            r = root(I, c)
            return NotImplemented if r is None else (r, c.st)

        def through(I, c):
            """a guard of a cell stands for what is in the cell"""
            a = c.args[0]
            v = I.pick(I.load(c.st, a[1], a[2]), c.st) if a[0] == "ref" else a
            return (v, c.st) if v[0] == "ref" and v[1] in self.cells else NotImplemented

        def put(new, old):
            def f(I, c):
                r = root(I, c)
                if r is None:
                    return NotImplemented
                st = c.st.copy()
                was = I.load(st, r[1], ())
                st.store[r[1]] = NONE if new is None else c.args[1]
                return (was if old else ("tup", ())), st
            return f

        def nxt(I, c):
            r = self.step(c, I.deref_all(c.args[0], c.st), c.st)
            return NotImplemented if r is None else r
        return {TREE + "new_branch": new_branch, TREE + "add_callback": add_callback, "std::rc::Rc::new": cell, NEXT: nxt,
                "std::cell::RefCell::borrow_mut": borrow, "std::cell::RefCell::borrow": borrow,
                "std::ops::DerefMut::deref_mut": through, "std::ops::Deref::deref": through, "std::cell::RefCell::take": put(None, True),
                "std::cell::RefCell::replace": put(1, True), "std::cell::Cell::take": put(None, True), "std::cell::Cell::set": put(1, False),
                "std::cell::Cell::replace": put(1, True)}

    def step(self, c, it, st):
        if it == ("source",):
            self.n += 1
            return (some(("entry", self.n)) if self.n <= self.entries else NONE), st
        if it[0] == "dyn":
            return self.step(c, it[3], st)
        if it[0] == "iter" and it[1] == "src":
            return self.step(c, it[2] if it[2][0] != "ref" else self.I.deref_all(it[2], st), st)
        if it[0] == "adt":
            want = "<%s" % it[1]
            bs = [b for b in self.W.bodies.values() if b.name.startswith(want) and b.name.endswith(" as %s>::next" % NEXT.rpartition("::")[0])
                  and b.name[len(want)] in " <"]
            if bs:
                root = ("C", self.I.fresh())
                st = st.copy()
                st.store[root] = it
                v, st = self.I.call_body(bs[0], [("ref", root, ())], st, c.seq, c.site)
                return None if v is None else (v, st)
        return None

    def entry(self):
        """[value each branch gets], None where it is not decided"""
        c = Call(self.seq)
        for k in self.callbacks:
            k = k[3] if k[0] == "dyn" else k
            r = self.I.call_value(k, [("adt", STATE, 0, ())], self.st, c.seq, None)
            if r is None:
                return None
            self.st = r[1]
        out = []
        for _, _, p in self.branches:
            r = self.step(c, p, self.st)
            out.append(None if r is None else r[0])
            if r is not None:
                self.st = r[1]
        return out


def place(v):
    """(number of the entry, fields) of a value taken out of the struct of an entry"""
    path = []
    while v[0] == "fld":
        path.append(v[2])
        v = v[1]
    return (v[1], tuple(path[::-1])) if v[0] == "entry" else (None, None)


def spots(seq, hit, path=()):
    """(loops around, position, event) of the events `hit` accepts; the position orders events of one loop body"""
    for i, e in enumerate(seq):
        if hit(e):
            yield path, i, e
        for sub in nested(e):
            yield from ((p, (i, k), x) for p, k, x in spots(sub, hit, path + ((i, e),) if e[0] == "loop" else path + ((i, None),)))


def nested(e):
    if e[0] == "loop":
        return [e[2]]
    if e[0] == "alt":
        return [a[1] for a in e[2]]
    return []


def rounds(ctx):
    """WriterTree::write calls every callback with Before, oldest first, and then writes one element of every branch"""
    F = ctx.facts()
    b = F.one(TREE + "write")
    where = rel(b.where())
    bw = "oxyroot::rtree::branch::wbranch::WBranch::write"

    def bwrite(I, c):
        c.seq.append(("bwrite", I.deref_all(c.args[0], c.st)))
        return ("call", bw, ()), c.st
    I = Interp(F, hooks={bw: bwrite}, opaque={TREE + "close"})
    seq, v, st = I.run(b, [("ref", ("C", "self"), ()), ("ref", ("C", "file"), ())])
    before = list(spots(seq, lambda e: e[0] in ("icall", "vcall") and any(x[:3] == ("adt", STATE, 0) for x in subterms(tuple(e[2])))))
    writes = list(spots(seq, lambda e: e[0] == "bwrite"))
    if not before or not writes:
        return ctx.open("WriterTree::write: %d calls of callbacks with Before and %d writes of branches found" % (len(before), len(writes)))
    (p1, _, cb), (p2, _, wr) = before[0], writes[0]
    n = 0
    while n < min(len(p1), len(p2)) and p1[n][0] == p2[n][0]:
        n += 1
    loops = lambda p: len([e for _, e in p if e is not None])
    shape = (loops(p1[:n]), loops(p1[n:]), loops(p2[n:]))
    if len(before) > 1 or len(writes) > 1 or n == len(p1) or n == len(p2) or shape != (1, 1, 1):
        if len(before) == len(writes) == 1 and shape[:1] == (2,):
            return ctx.bad("before", "WriterTree::write", where, "the callbacks get Before between the writes of the branches of an entry")
        return ctx.open("WriterTree::write: %d calls of callbacks and %d writes in loops %r" % (len(before), len(writes), shape))
    first = p1[n][0] < p2[n][0]
    ctx.ob("before", "WriterTree::write", where, first, "callbacks get Before %s the branches of an entry are written" % ("before" if first else "after"))
    it = [x for e in p1[-1:] if e[1] is not None for x in subterms(tuple(e[1][2])) if x[0] == "iter"]
    odd = sorted({x[1] for x in it} - {"src"})
    ctx.ob("before", "callbacks", where, not odd, "every callback is called, oldest first" if not odd else
           "the callbacks are called through %s" % ", ".join(odd))
    a = F.one(TREE + "add_callback") if len([x for x in F.mono() if x.name == TREE + "add_callback"]) == 1 else None
    W = ctx.facts("witness")
    bs = [x for x in W.mono() if x.name == TREE + "add_callback"] if a is None else [a]
    for x in bs[:1]:
        I = Interp(F if a is not None else W)
        _, _, st = I.run(x, [("ref", ("C", "self"), ()), ("new",)])
        after = st.store.get(("C", "self"), ("none",))
        if any(y[0] == "push" and ("new",) in set(subterms(y[2])) and ("new",) not in set(subterms(y[1])) for y in subterms(after)):
            ctx.ok("before", "WriterTree::add_callback", rel(x.where()), "a callback is added behind the ones there are")
        else:
            ctx.open("WriterTree::add_callback: where the callback goes is not decided: %s" % show(after)[:100])
    if not bs:
        ctx.open("WriterTree::add_callback is not found")


def check(ctx):
    W = ctx.facts("witness")
    ctx.attempt("WriterTree::write", rounds, ctx)
    for name, spec in sorted(STRUCTS.items()):
        ctx.attempt(name, derived, ctx, W, name, spec)
    for rule, n in (("name", 18), ("value", 36), ("end", 18), ("before", 3)):
        ctx.floor(rule, len([o for o in ctx.obl if o[0] == rule]), n)


def derived(ctx, W, name, spec):
    P = Play(W, name, 2)
    if P.body is None or P.v is None:
        return ctx.open("WriteToTree::to_tree of %s %s" % (name, "is not found" if P.body is None else "always fails"))
    where = rel(P.body.where())
    want = [(p, n, t) for p, n, t, _ in c18.leaves(spec)]
    names = [n for n, _, _ in P.branches]
    pairs = {}
    if None in names:
        ctx.open("the names of the branches of %s are not decided" % name)
    else:
        for p, n, t in want:
            k = names.count(n)
            ctx.ob("name", "%s:%s" % (name, n), where, k == 1, "field %s has %s" % (".".join(p), "its branch %r" % n if k == 1 else
                   "%d branches %r; the branches of the struct are %s" % (k, n, ", ".join(map(repr, names)))))
        extra = [n for n in names if n not in [x for _, x, _ in want]]
        ctx.ob("name", "%s:others" % name, where, not extra, "no other branches" if not extra else
               "branches no field has: %s" % ", ".join(map(repr, extra)))
    if len(P.branches) != len(want):
        return
    for i, (p, n, t) in enumerate(want):
        j = names.index(n) if names.count(n) == 1 else i
        pairs[j] = (p, n, t)
        ty = P.branches[j][1]
        ctx.ob("type", "%s:%s" % (name, n), where, ty == t, "branch %r holds %s" % (n, ty) + ("" if ty == t else ", the field is %s" % t))
    if len(pairs) != len(want):
        return
    for k in (1, 2, 3):
        got = P.entry()
        if got is None:
            return ctx.open("what the callbacks of %s do is not decided" % name)
        for j, v in enumerate(got):
            p, n, t = pairs[j]
            sub, what = "%s:%s" % (name, ".".join(p)), "in entry %d branch %r" % (k, n)
            v = strip(v) if v is not None else ("none",)
            if v == NONE:
                ctx.ob("end" if k == 3 else "value", sub + ":%d" % k, where, k == 3, what + " gets nothing")
                continue
            if v[0] != "adt" or len(v[3]) != 1:
                ctx.open("%s of %s: what it gets is not decided: %s" % (what, name, show(v)[:100]))
                continue
            e, path = place(v[3][0])
            if e is None:
                ctx.open("%s of %s: what it gets is not decided: %s" % (what, name, show(v)[:100]))
                continue
            ctx.ob("end" if k == 3 else "value", sub + ":%d" % k, where, e == k and path == p and k < 3,
                   "%s gets %s of entry %d" % (what, ".".join(path), e) + ("" if k < 3 else ", after the last one"))
