"""The records a file function writes: for every normal path, the positioned writes in order, grouped into
(key header, payload) pairs and in-place rewrites, with the end-of-file mark in force."""
import iofx, logic, wire
import split as receiver
from absint import C, show, strip, subterms, AnalysisError, canon_cond
from logic import fold

KEYM = "<oxyroot::riofs::key::Key as oxyroot::rbytes::Marshaler>::marshal"
# position of the tokens of a key header
NBYTES, RVERS, OBJLEN, DATIME, KEYLEN, CYCLE, SEEKKEY, SEEKPDIR, CLASS, NAME, TITLE = range(11)


class Op:
    def __init__(self, pos, bytes, len, end, site, ev):
        self.pos, self.bytes, self.len, self.end, self.site, self.ev = pos, bytes, len, end, site, ev
        self.rec = None


class Path:
    def __init__(self, ops, marshals, assume, evs):
        self.ops, self.marshals, self.assume, self.evs = ops, marshals, assume, evs


def chunks(b):
    """(base, chunks) of a byte string grown by appending; None when it is merged"""
    out = []
    b = strip(b)
    while b[0] == "ext":
        out.append(b[2])
        b = strip(b[1])
    return b, out[::-1]


class Root:
    """one function that writes to the file"""
    def __init__(self, io, body, rootp, label, split=("", None), **kw):
        self.io, self.body, self.label = io, body, label
        self.split, self.init = split
        self.rootp = rootp
        args = [("p", "self")] + [("p", "a%d" % i) for i in range(1, body.argc)]
        self.I, self.seq, self.v, self.st = io.run(body, args[:body.argc], rootp, init=receiver.state(split[1]), **kw)
        self.paths = []
        self.undecided = []
        for evs, a in io.paths(self.seq):
            self.paths += self.spread(self.path(evs, a))

    def x(self, t):
        return self.io.expand(self.I, t)

    def path(self, evs, a):
        ops, ms = [], []
        cur = None
        io, I = self.io, self.I
        assume = {}
        for k, l in a.items():
            k2 = self.x(k)
            if isinstance(l, bool):
                k2, pol = canon_cond(k2, True)
                if k2[0] == "c":
                    continue
                assume[k2] = l == pol
            else:
                assume[k2] = l
        for e in evs:
            if e[0] == "loop":
                if any(y[0] == "io" and y[1] in ("write", "seek") for y in flat(e)):
                    self.undecided.append("a loop writes to the file in place")
                    cur = None
                continue
            if e[1] == "seek":
                s = e[2][0]
                cur = self.x(s[3][0]) if s[0] == "adt" and s[2] == 0 else None
            elif e[1] == "write":
                b = e[2][0]
                ln = self.x(io.length(I, b))
                end = self.x(io.end_of(e[3])) if e[3] is not None else None
                ops.append(Op(cur, b, ln, end, e[4], e))
                cur = None if cur is None else fold("Add", cur, ln)
            elif e[1] == "marshal":
                ms.append(e)
            elif e[1] == "write-some":
                self.undecided.append("Write::write may write less than it is given")
        p = Path(ops, ms, assume, evs)
        for i, o in enumerate(ops):
            k = self.header_of(o)
            if k is not None:
                o.rec = k
        return p

    def spread(self, p, budget=48):
        """one path per alternative layout of the bytes written: merges between appended chunks are split"""
        for o in p.ops:
            c = spine(o.bytes)
            if c is None:
                continue
            c = cond = self.x(c)
            f = None
            labels = spine_labels(o.bytes)
            out = []
            for l in labels:
                a2 = dict(p.assume)
                if isinstance(l, bool):
                    k, pol = canon_cond(cond, True)
                    if k[0] == "c":
                        if bool(k[1]) != (l == pol):
                            continue
                    else:
                        if a2.get(k, l == pol) != (l == pol):
                            continue
                        a2[k] = l == pol
                else:
                    if a2.get(cond, l) != l:
                        continue
                    a2[cond] = l
                if iofx.refuted(iofx.constraints(a2)):
                    continue
                ops = []
                for o2 in p.ops:
                    n = Op(o2.pos, self.pick(o2.bytes, a2, cond, l), o2.len, o2.end, o2.site, o2.ev)
                    n.rec = self.header_of(n)
                    ops.append(n)
                q = Path(ops, p.marshals, a2, p.evs)
                if budget <= 1 or all(x.bytes is y.bytes for x, y in zip(ops, p.ops)) and f is None:
                    out.append(q)
                else:
                    out += self.spread(q, budget - 4)
            return out
        return [p]

    def pick(self, b, a, cond, lab):
        """the bytes under the assumptions"""
        s = strip(b)
        if s[0] == "ext":
            r = self.pick(s[1], a, cond, lab)
            return b if r is s[1] else ("ext", r) + s[2:]
        if s[0] == "phi":
            c = self.x(s[1])
            l = lab if c == cond else logic.decide(c, None, a)
            if l is None:
                return b
            x = logic.pick_arm(s[2], l)
            return b if x is None else self.pick(x, a, cond, lab)
        return b

    def header_of(self, op):
        base, ch = chunks(op.bytes)
        if not ch:
            return None
        c = strip(ch[0])
        if c[0] != "wire":
            return None
        toks = self.io_tokens(c[1])
        key = self.io_tokens(KEYM)
        if toks is None or key is None or len(toks) < 11:
            return None
        if [k for k, _ in toks[:6]] != [k for k, _ in key[:6]] or [k for k, _ in key[:6]] != ["i32", "i16", "i32", "u32", "i16",
                                                                                            "i16"]:
            return None
        return c[1], c[2], [self.io.project(t, c[2]) for _, t in toks]

    def io_tokens(self, name):
        t = self.io.tree(name)
        if t is None:
            return None
        c = getattr(self.io, "_toks", None)
        if c is None:
            c = self.io._toks = {}
        if name not in c:
            c[name] = toklist(t[1])
        return c[name]


def flat(e):
    if e[0] == "loop":
        for p, _ in e[2]:
            for y in p:
                yield from flat(y)
    else:
        yield e


def toklist(nodes):
    """[(kind, value)]: alternatives that put the same number of tokens are merged token by token"""
    out = []
    for n in nodes:
        if n[0] == "guard":
            continue
        if n[0] == "ev":
            if n[2] == "prim":
                out.append((n[3], n[4]))
            elif n[2] in ("str", "cstr"):
                out.append((n[2], n[3]))
            elif n[2] == "arr":
                out.append(("arr:" + n[3], n[4]))
            elif n[2] == "hdr":
                out.append(("hdr", n[4]))
            elif n[2] in ("endhdr", "inplace"):
                continue
            else:
                out.append((n[2], n[3] if len(n) > 4 else None))
        elif n[0] == "alt":
            arms = [(l, toklist(s)) for l, s in n[2]]
            if any(t is None for _, t in arms) or len({len(t) for _, t in arms}) != 1:
                return None
            for i in range(len(arms[0][1])):
                ks = {t[i][0] for _, t in arms}
                out.append((ks.pop() if len(ks) == 1 else "|".join(sorted(ks)),
                            ("phi", n[1], tuple((l, ("cast", t[i][0] + "@", t[i][1]) if len({u[i][0] for _, u in arms}) > 1
                                                 else t[i][1]) for l, t in arms))))
        else:
            return None if not out else out
    return out


def spine(b):
    """condition of the last merge a byte string went through, when chunks were appended around it"""
    b = strip(b)
    while b[0] == "ext":
        b = strip(b[1])
    return b[1] if b[0] == "phi" else None


def spine_labels(b):
    b = strip(b)
    while b[0] == "ext":
        b = strip(b[1])
    return [l for l, _ in b[2]]


def say(r, root):
    """residual of a failed comparison as text"""
    a, u = r
    d = {k: c for k, c in logic.linear(u).items() if c}
    t = " + ".join(("%d*%s" % (c, show(k)[:80]) if c != 1 else show(k)[:80]) if k is not None else str(c)
                   for k, c in sorted(d.items(), key=repr)) or "0"
    return t[:300]


# ------------------------------------------------------------------------- which functions
FILE_T = "oxyroot::riofs::file::RootFile"


def is_file_type(F, ti):
    """True when the type is (a reference to) the file handle"""
    for _ in range(4):
        t = F.ty(ti)
        if not t:
            return False
        if t.get("k") == "adt":
            from facts import norm
            return norm(t["name"]) == FILE_T
        if t.get("k") in ("ref", "ptr"):
            ti = t["ty"]
            continue
        return False
    return False


def file_arg(F, body):
    """the parameter that is the file handle"""
    names = ["self"] + ["a%d" % i for i in range(1, body.argc)]
    for n, ti in zip(names, [l[0] for l in body.locals[1:body.argc + 1]]):
        if is_file_type(F, ti):
            return ("p", n)
    return None


def looping_calls(body, g, W):
    """ids in W called from inside a loop of body (closures count as looped)"""
    import scan
    from facts import cfg
    c = cfg(body)
    inl = set()
    for s in c.loops.values():
        inl |= s
    out = set()
    for i, t, nm, decl in scan.calls(body):
        d = t["f"].get("id")
        if d in W and i in inl:
            out.add(d)
    for x in g.get(body.id, ()):
        if x in W and "{closure" in body.facts.bodies[x].name:
            out.add(x)
    return out


def writers(F):
    """functions analysed as a unit: reach a positioned write and do not loop over one. Found from the entry points down."""
    import scan
    g = scan.call_graph(F)
    prim = set()
    for b in F.mono():
        for i, t, nm, decl in scan.calls(b):
            if decl in ("std::io::Write::write_all", "std::io::Write::write") and "std::fs::File" in t["f"]["name"]:
                prim.add(b.id)
    rev = {}
    for a, ys in g.items():
        for y in ys:
            rev.setdefault(y, set()).add(a)
    W = scan.reachable(rev, prim)
    W = {w for w in W if not F.bodies[w].poly}
    tops = [w for w in W if not any(c in W and c != w for c in rev.get(w, ()))]
    out, seen, work = [], set(), list(tops)
    while work:
        w = work.pop()
        if w in seen:
            continue
        seen.add(w)
        b = F.bodies[w]
        if b.defn.startswith("oxyroot::") and not looping_calls(b, g, W) and (file_arg(F, b) is not None or returns_file(F, b)) \
                and not mentions_many(F, b, g, W):
            out.append(b)
            continue
        work.extend(x for x in g.get(w, ()) if x in W)
    return sorted(out, key=lambda b: b.rawname), prim


def returns_file(F, b):
    return "RootFile" in F.tstr(b.locals[0][0])


def mentions_many(F, b, g, W):
    """loops over file writes somewhere below"""
    import scan
    for x in scan.reachable({k: [y for y in v if y in W] for k, v in g.items() if k in W}, [b.id]):
        if x != b.id and looping_calls(F.bodies[x], g, W):
            return True
    return False
