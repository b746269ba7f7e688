"""Alignment of a writer's wire tree with a reader's wire tree.

Every path of the writer is followed; what the reader reads is bound to what the writer wrote at that place, so
that the reader's own conditions (versions, flags, counts) are decided by the writer's values. A condition that
stays open is split on both sides under the assumption made."""
from absint import C, show, strip, subterms
import logic
from logic import simp, decide, linear, lin_sub, is_zero, feasible, phi_conds, labels_of
from wire import WIDTH, kindclass, loop_count, has_tokens


class Mismatch(Exception):
    pass


class Result:
    def __init__(self):
        self.paths = 0
        self.tokens = 0
        self.mismatches = []     # (kind, text, wsite, rsite)
        self.undecided = []
        self.binds = []          # per completed path: (env, assume)
        self.pairs = set()
        self.arrays = set()      # (array the reader fills, value the writer puts there)


def describe(n):
    if n is None:
        return "nothing"
    if n[0] == "ev":
        return "%s%s" % (n[2], (" " + n[3]) if n[2] in ("prim", "arr") else "")
    return n[0]


def site_of(n):
    if n is None:
        return None
    s = n[-1]
    return s if isinstance(s, tuple) and len(s) == 2 and hasattr(s[0], "where") else None


class Aligner:
    def __init__(self, IW, IR, max_paths=4000):
        self.IW, self.IR = IW, IR
        self.res = Result()
        self.max_paths = max_paths
        self.done = set()

    def align(self, wseq, rseq, env=None, assume=None):
        self.go(list(wseq), list(rseq), dict(env or {}), dict(assume or {}))
        return self.res

    def fail(self, kind, text, w, r, extra=None):
        key = (kind, describe(w), describe(r), site_of(w) and site_of(w)[1], site_of(r) and site_of(r)[1])
        if key in self.done:
            return
        self.done.add(key)
        self.res.mismatches.append((kind, text, site_of(w), site_of(r), extra))

    # a sequence is a python list used as a stack front; cut to tokens
    def head(self, seq, env, assume):
        """resolve leading non-token nodes; returns (token or None, rest) or ('split', cond, labels)"""
        seq = list(seq)
        while seq:
            n = seq[0]
            if n[0] == "guard":
                lab = decide(n[1], env, assume)
                if lab is not None and self.same(lab, n[2]):
                    return ("dead", n), seq
                c = simp(n[1], env, assume)
                if lab is None and isinstance(n[2], bool):
                    from absint import canon_cond
                    k, pol = canon_cond(c, True)
                    assume = dict(assume)
                    assume[k] = (not n[2]) == pol
                    self.extra = assume
                seq.pop(0)
                continue
            if n[0] == "alt":
                lab = decide(n[1], env, assume)
                if lab is not None:
                    arm = logic.pick_arm([(l, s) for l, s in n[2]], lab)
                    if arm is None:
                        arm = ()
                    seq = list(arm) + seq[1:]
                    continue
                c = simp(n[1], env, assume)
                return ("split", c, [l for l, _ in n[2]], n), seq
            if n[0] == "ev" and n[2] in ("endhdr", "inplace"):
                seq.pop(0)
                continue
            if n[0] == "ev" and n[2] == "arr":
                if n[1] == "W":
                    kind, val, cnt, site = n[3], n[4], n[5], n[6]
                    tok = ("loop", ("arr", kind, cnt), (), (("ev", "W", "prim", kind, ("elem", val, ("it",)), site),), site)
                else:
                    kind, val, cnt, site = n[3], n[4], n[5], n[6]
                    tok = ("loop", ("arr", kind, cnt), (), (("ev", "R", "prim", kind, ("relem", val), site),), site)
                seq[0] = tok
                return tok, seq
            return n, seq
        return None, seq

    def same(self, lab, want):
        if lab == want:
            return True
        if isinstance(want, tuple) and want and want[0] == "in":
            return lab in want[1]
        return False

    def count(self, side, n, env, assume):
        if n[1][0] == "arr":
            c = n[1][2]
        elif n[1][0] == "rem":
            c = n[1][1]
        else:
            c = loop_count(self.IW if side == "W" else self.IR, n)
        if c is None:
            return None
        return simp(c, env, assume)

    def split(self, cond, labels, node, w, r, env, assume, depth):
        from absint import canon_cond
        for l in labels:
            a2 = dict(assume)
            if isinstance(l, bool):
                k, pol = canon_cond(cond, True)
                a2[k] = l == pol
                if k != cond:
                    a2[cond] = l
            else:
                a2[cond] = l
            if not feasible(a2):
                continue
            self.go(list(w), list(r), dict(env), a2, depth + 1)

    def go(self, w, r, env, assume, depth=0):
        res = self.res
        if res.paths > self.max_paths or depth > 200:
            res.undecided.append("path budget")
            return
        while True:
            self.extra = None
            wt, w = self.head(w, env, assume)
            if self.extra:
                assume = self.extra
            if wt is not None and wt[0] == "dead":
                return           # the writer refuses: nothing is written on this path
            if wt is not None and wt[0] == "split":
                # prefer splitting on the conditions of values inside
                pc = [c for c in phi_conds(wt[1])]
                if pc:
                    self.split(pc[0], labels_of(wt[1], pc[0]), wt[3], w, r, env, assume, depth)
                else:
                    self.split(wt[1], wt[2], wt[3], w, r, env, assume, depth)
                return
            self.extra = None
            rt, r = self.head(r, env, assume)
            if self.extra:
                # a guard of the reader that the writer's value does not decide
                pass
            if rt is not None and rt[0] == "dead":
                self.fail("rejects", "the reader rejects what the writer wrote: condition %s is %s" % (
                    show(rt[1][1])[:120], rt[1][2]), None, rt[1])
                return
            if rt is not None and rt[0] == "split":
                pc = [c for c in phi_conds(rt[1])]
                if pc:
                    self.split(pc[0], labels_of(rt[1], pc[0]), rt[3], w, r, env, assume, depth)
                else:
                    self.split(rt[1], rt[2], rt[3], w, r, env, assume, depth)
                return
            if wt is None and rt is None:
                res.paths += 1
                res.binds.append((env, assume))
                return
            if wt is None or rt is None:
                # a loop that turns out to run zero times is nothing
                x = wt or rt
                if x[0] == "loop":
                    c = self.count("W" if wt else "R", x, env, assume)
                    if c is not None and is_zero(c):
                        (w if wt else r).pop(0)
                        continue
                    if c is not None:
                        pc = phi_conds(c)
                        if pc:
                            self.split(pc[0], labels_of(c, pc[0]), x, w, r, env, assume, depth)
                            return
                        if self.positive(c, assume) is False:
                            (w if wt else r).pop(0)
                            continue
                self.fail("length", "one side goes on with %s where the other has finished (writer: %s, reader: %s)" % (
                    describe(x), describe(wt), describe(rt)), wt, rt)
                return
            if wt[0] in ("vcall", "icall", "rec") or rt[0] in ("vcall", "icall", "rec"):
                if wt[0] == rt[0] and wt[0] == "vcall":
                    w.pop(0)
                    r.pop(0)
                    continue
                res.undecided.append("opaque call %s / %s" % (str(wt[:2])[:80], str(rt[:2])[:80]))
                return
            # loops
            if wt[0] == "loop" or rt[0] == "loop":
                k = self.loops(wt, rt, w, r, env, assume, depth)
                if k:
                    continue
                return
            a, b = wt[2], rt[2]
            if a == "nil" and b == "objany":
                env = dict(env)
                env[rt[3]] = ("nil",)
                w.pop(0)
                r.pop(0)
                res.tokens += 1
                continue
            if a == "nil":
                w[0] = ("ev", "W", "prim", "u32", C(0), wt[-1])
                continue
            if a == "str" and b == "prim" and wt[3][0] == "s" and len(wt[3][1]) < 255 and rt[3] in ("u8", "i8"):
                t = wt[3][1]
                w.pop(0)
                w.insert(0, ("ev", "W", "prim", "u8", C(len(t.encode())), wt[-1]))
                if t:
                    w.insert(1, ("ev", "W", "arr", "u8", wt[3], C(len(t.encode())), wt[-1]))
                continue
            if a == "hdr" and b == "prim":
                # header read by hand: byte count then version
                w.pop(0)
                w.insert(0, ("ev", "W", "prim", "u32", ("bytecount", wt[5]), wt[-1]))
                w.insert(1, ("ev", "W", "prim", "u16", wt[4], wt[-1]))
                continue
            if a != b:
                self.fail("token", "the writer puts %s where the reader takes %s" % (describe(wt), describe(rt)), wt, rt)
                return
            if a == "seek":
                res.undecided.append("reader seeks")
                return
            env = dict(env)
            if a == "prim":
                if kindclass(wt[3]) != kindclass(rt[3]):
                    self.fail("width", "the writer puts %s where the reader takes %s" % (wt[3], rt[3]), wt, rt)
                    return
                env[rt[4]] = self.conv(simp(wt[4], None, assume), rt[3])
                if rt[4][0] == "relem":
                    self.res.arrays.add((rt[4][1], wt[4]))
                self.res.pairs.add((site_of(wt), wt[3], site_of(rt), rt[3], show(strip(wt[4]))[:80]))
            elif a in ("str", "cstr", "objany"):
                env[rt[3]] = simp(wt[3], None, assume)
            elif a == "hdr":
                v = simp(wt[4], None, assume)
                if rt[4][0] == "rd":
                    env[rt[4]] = v
                elif rt[4][0] == "c" and v[0] == "c" and v[1] != rt[4][1]:
                    res.undecided.append("header versions not specialised")
                    return
            w.pop(0)
            r.pop(0)
            res.tokens += 1

    def conv(self, v, kind):
        if v[0] == "c" and isinstance(v[1], int) and kind[0] in "iu":
            n = WIDTH[kind] * 8
            x = v[1] & ((1 << n) - 1)
            if kind[0] == "i" and x >> (n - 1):
                x -= 1 << n
            return C(x)
        return v

    def positive(self, c, assume):
        """True if c > 0 is known, False if c <= 0 is known"""
        r = decide(("bin", "Lt", C(0), c), None, assume)
        return r

    def loops(self, wt, rt, w, r, env, assume, depth):
        """one or both heads are loops. returns True to go on with the modified lists"""
        res = self.res
        for side, n, seq in (("W", wt, w), ("R", rt, r)):
            if n[0] != "loop":
                continue
            c = self.count(side, n, env, assume)
            if c is not None:
                if is_zero(c):
                    seq.pop(0)
                    return True
                pc = phi_conds(c)
                if pc:
                    self.split(pc[0], labels_of(c, pc[0]), n, w, r, env, assume, depth)
                    return False
                if self.positive(c, assume) is False:
                    seq.pop(0)
                    return True
                # a loop of known small length against something that is not a loop: unroll once
                other = rt if side == "W" else wt
                if other[0] != "loop":
                    if c[0] == "c":
                        seq.pop(0)
                        if c[1] <= 64:
                            seq[0:0] = self.unroll(n, c[1])
                            return True
                        body = list(n[3])
                        if c[1] > 1:
                            seq.insert(0, ("loop", ("rem", C(c[1] - 1)), n[2], n[3], n[4]))
                        seq[0:0] = body
                        return True
                    if self.positive(c, assume) is None:
                        # may be empty: consider both
                        cond = ("bin", "Lt", C(0), c)
                        self.split(cond, [True, False], n, w, r, env, assume, depth)
                        return False
        if wt[0] != "loop" or rt[0] != "loop":
            self.fail("repetition", "the writer puts %s where the reader takes %s" % (
                "a repeated group" if wt[0] == "loop" else describe(wt),
                "a repeated group" if rt[0] == "loop" else describe(rt)), wt, rt)
            return False
        cw = self.count("W", wt, env, assume)
        cr = self.count("R", rt, env, assume)
        if cw is not None and cr is not None and cw[0] == "c" and cr[0] == "c" and max(cw[1], cr[1]) <= 32:
            for seq, n, c in ((w, wt, cw[1]), (r, rt, cr[1])):
                seq.pop(0)
                seq[0:0] = self.unroll(n, c)
            return True
        # bodies: aligned on their own, under the assumptions made so far
        sub = Aligner(self.IW, self.IR, self.max_paths)
        sub.go(list(wt[3]), list(rt[3]), dict(env), dict(assume), depth + 1)
        for m in sub.res.mismatches:
            if m not in res.mismatches:
                res.mismatches.append(m)
        res.undecided += sub.res.undecided
        res.tokens += sub.res.tokens
        res.pairs |= sub.res.pairs
        res.arrays |= sub.res.arrays
        w.pop(0)
        r.pop(0)
        if cw is None or cr is None:
            res.undecided.append("loop count not a term: %s / %s" % (wt[1][:2], rt[1][:2]))
            return True
        d = simp(lin_sub(cr, cw), env, assume)
        if is_zero(d):
            return True
        pc = phi_conds(d)
        if pc:
            w.insert(0, wt)
            r.insert(0, rt)
            self.split(pc[0], labels_of(d, pc[0]), wt, w, r, env, assume, depth)
            return False
        if self.known_zero(d, assume):
            return True
        # the same element may be written by two loops in a row
        simple = len(rt[3]) == 1 and rt[3][0][0] == "ev"
        if simple and w and self.next_loop(w, env, assume):
            r.insert(0, ("loop", ("rem", d), rt[2], rt[3], rt[4]))
            return True
        dr = simp(lin_sub(cw, cr), env, assume)
        if simple and r and self.next_loop(r, env, assume):
            w.insert(0, ("loop", ("rem", dr), wt[2], wt[3], wt[4]))
            return True
        self.fail("count", "the writer repeats %s times, the reader %s times" % (show(cw)[:80], show(cr)[:80]), wt, rt, d)
        return True

    def unroll(self, n, c):
        if n[1][0] == "arr" and len(n[3]) == 1 and n[3][0][4][0] in ("elem", "relem"):
            t = n[3][0]
            out = []
            for i in range(c):
                b = t[4][1]
                if t[1] == "W":
                    v = b[1][i] if b[0] == "arr" and i < len(b[1]) else ("elem", b, C(i))
                else:
                    v = ("elem", b, C(i))
                out.append(t[:4] + (v,) + t[5:])
            return out
        return list(n[3]) * c

    def known_zero(self, d, assume):
        return decide(("bin", "Eq", d, C(0)), None, assume) is True

    def next_loop(self, seq, env, assume):
        t, s = self.head(seq, env, assume)
        if t is None:
            return False
        if t[0] == "split":
            return any(a and (a[0][0] == "loop" or (a[0][0] == "ev" and a[0][2] == "arr")) for a in
                       [list(x[1]) for x in t[3][2]])
        return t[0] == "loop" or (t[0] == "ev" and t[2] == "arr")
