"""Loading and indexing of the MIR facts written by the driver."""
import json, re, functools

LIFE = re.compile(r"'[a-zA-Z_]+\b")

@functools.lru_cache(maxsize=None)
def norm(name):
    """Canonical item path: lifetimes and turbofish/generic argument lists of *inherent* paths removed,
    the crate-relative rendering of std paths normalised."""
    if name is None:
        return None
    n = name
    for c in ("oxyroot", "oxyroot_ls", "oxyroot_dump", "witness"):
        for s in ("core", "alloc", "std"):
            n = n.replace("%s::%s::" % (c, s), s + "::")
    out = []
    i = 0
    L = len(n)
    # drop every balanced ::<...> group
    while i < L:
        if n.startswith("::<", i) and not n.startswith("::<impl ", i):
            d = 0
            j = i + 2
            while j < L:
                if n[j] == "<":
                    d += 1
                elif n[j] == ">" and n[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(n[i])
        i += 1
    n = "".join(out)
    n = re.sub(r"<'[a-z_]+(, *'[a-z_]+)*>", "", n)
    n = re.sub(r"<'[a-z_]+, *", "<", n)
    n = re.sub(r"&'[a-z_]+ ", "&", n)
    n = re.sub(r" \+ '[a-z_]+", "", n)
    n = n.replace("alloc::", "std::")
    n = re.sub(r"\bcore::", "std::", n)
    return n


class Body:
    __slots__ = ("id", "name", "rawname", "defn", "poly", "args", "locals", "blocks", "file", "line", "facts",
                 "upvars", "argc", "spread", "_cfg", "kind")

    def __init__(self, d, facts):
        self.facts = facts
        self.id = d["id"]
        self.rawname = d["name"]
        self.name = norm(d["name"])
        self.defn = norm(d["def"])
        self.poly = d["poly"]
        self.args = d["args"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.file = facts.files[d["ispan"][0]]
        self.line = d["ispan"][1]
        self.upvars = d["upvars"]
        self.argc = d["nargs"]
        self.spread = d["spread"]
        self._cfg = None

    def line_of(self, bb):
        return self.blocks[bb]["sp"][1]

    def where(self, bb=None):
        if bb is None:
            return "%s:%d" % (self.file, self.line)
        sp = self.blocks[bb]["sp"]
        return "%s:%d" % (self.facts.files[sp[0]], sp[1])

    def __repr__(self):
        return "<Body %s>" % self.rawname


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.types = d["types"]
        self.files = d["files"]
        self.bodies = {}
        self.by_name = {}
        self.by_def = {}
        for b in d["bodies"] + d["statics"]:
            bo = Body(b, self)
            self.bodies[bo.id] = bo
            self.by_name.setdefault(bo.name, []).append(bo)
            self.by_def.setdefault(bo.defn, []).append(bo)
        self.inventory = d["inventory"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.adt_by_name = {}
        for t in self.types:
            if t and t.get("k") == "adt":
                self.adt_by_name.setdefault(norm(t["name"]), t)

    def ty(self, i):
        return self.types[i] if i is not None else None

    def tstr(self, i):
        return norm(self.types[i]["s"]) if i is not None else "?"

    def mono(self):
        return [b for b in self.bodies.values() if not b.poly]

    def mono_suffix(self, suf):
        return [b for n, l in self.by_def.items() if n.endswith(suf) for b in l if not b.poly]

    def find(self, name, mono=True):
        """bodies whose normalised def path is `name` (monomorphic ones first)"""
        r = [b for b in self.by_def.get(name, []) if not b.poly]
        if not r and not mono:
            r = self.by_def.get(name, [])
        return r

    def one(self, name):
        r = self.find(name)
        return r[0] if r else None


# ---------------------------------------------------------------- CFG
class Cfg:
    """Control-flow graph without unwind edges, restricted to blocks that can reach a return."""

    def __init__(self, body):
        n = len(body.blocks)
        self.n = n
        succ = []
        for bl in body.blocks:
            t = bl["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            elif k == "switch":
                s = [x[1] for x in t["br"]] + [t["o"]]
            else:
                s = []
            succ.append(s)
        self.succ_all = succ
        rets = [i for i, bl in enumerate(body.blocks) if bl["t"]["k"] == "return"]
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                pred[x].append(i)
        self.pred = pred
        live = set(rets)
        work = list(rets)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    work.append(p)
        self.canret = live
        reach = {0}
        work = [0]
        while work:
            x = work.pop()
            for s in succ[x]:
                if s not in reach:
                    reach.add(s)
                    work.append(s)
        self.reach = reach
        self._pdom()
        self._loops()

    def _pdom(self):
        # iterative dominators on the reversed graph with virtual exit -1
        nodes = [b for b in self.canret if b in self.reach]
        rsucc = {-1: []}
        for b in nodes:
            rsucc[b] = []
        preds = {-1: []}
        for b in nodes:
            preds[b] = []
        for b in nodes:
            ss = [s for s in self.succ_all[b] if s in self.canret]
            if not self.succ_all[b]:
                ss = [-1]
            for s in ss:
                rsucc[s].append(b)
                preds[b].append(s)
        order = []
        seen = set()

        stack = [(-1, iter(rsucc[-1]))]
        seen.add(-1)
        while stack:
            x, it = stack[-1]
            adv = False
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(rsucc[y])))
                    adv = True
                    break
            if not adv:
                order.append(x)
                stack.pop()
        order.reverse()
        idx = {x: i for i, x in enumerate(order)}
        idom = {-1: -1}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == -1:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.ipdom = idom

    def _loops(self):
        # dominators (forward)
        order = []
        seen = {0}
        stack = [(0, iter(self.succ_all[0]))]
        while stack:
            x, it = stack[-1]
            adv = False
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succ_all[y])))
                    adv = True
                    break
            if not adv:
                order.append(x)
                stack.pop()
        order.reverse()
        idx = {x: i for i, x in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                new = None
                for p in self.pred[b]:
                    if p in idom and p in idx:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        for b in order:
            for s in self.succ_all[b]:
                if self.dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in self.pred[x] if p in idx)
        self.loops = loops

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            nb = self.idom[b]
            if nb == b:
                return False
            b = nb


def cfg(body):
    if body._cfg is None:
        body._cfg = Cfg(body)
    return body._cfg
