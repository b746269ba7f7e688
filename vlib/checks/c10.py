"""C10: no failure is dropped on the way to the caller."""
import re
import scan
from facts import cfg, norm

RULE = ("Every call in the library and the two programs whose value is a Result with an I/O, decoding or library error is followed "
        "through the control-flow graph of its function, moves, borrows and the adapters of Result included: on every path the value "
        "is examined or handed on, and from every edge taken on failure each path to a return goes through an error that is "
        "returned (or None for a function that returns an Option, or false for a predicate); otherwise the function does not "
        "return on that edge.")
ASSUMPTIONS = ["a Result handed to another function or stored in a structure is dealt with there",
               "a failed downcast or an unknown numeric code is not a failure of reading or writing"]
NOT_A_FAILURE = re.compile(r"^(downcast::|std::fmt::Error$|\(\)$|clap::|!$|log::|.*LayoutError$)")
KEEP = re.compile(r"Result::(map|map_err|and_then|inspect|inspect_err|as_ref|as_mut|as_deref|copied|cloned|and)$|IntoFuture|^std::convert::identity$")
DIE = re.compile(r"Result::(unwrap|expect)$|Option::(unwrap|expect)$")
LOSE = re.compile(r"(Result|Option)::(unwrap_or|unwrap_or_default|map_or|map_or_else|unwrap_or_else|or|or_else|is_ok_and|is_err_and|iter|into_iter|is_some_and|is_none_or)$")
FMT = re.compile(r"^std::fmt::|fmt::rt::Argument")
OPT = re.compile(r"Option::(map|as_ref|as_mut|cloned|copied|filter|and_then|inspect)$")


def check(ctx):
    n = {"calls": 0, "failure edges": 0, "functions": set()}
    seen = set()
    for crate in ("oxyroot", "oxyroot_ls", "oxyroot_dump", "witness"):
        F = ctx.facts(crate)
        own = "oxyroot" if crate == "witness" else crate
        for b in F.bodies.values():
            if norm(b.defn).lstrip("<&").split("::")[0] != own and not re.match(r"^<.* as %s::" % own, b.defn):
                continue
            ctx.attempt(b.name, body, ctx, F, b, n, seen)
    ctx.cover["functions"] = len(n["functions"])
    ctx.floor("calls that may fail", n["calls"], 400)
    ctx.floor("failure edges", n["failure edges"], 300)


def failing(F, ti):
    """whether a type is a Result with an error that counts"""
    t = F.ty(ti)
    if not t or t.get("k") != "adt" or not norm(t["name"]).endswith("result::Result"):
        return False
    return not NOT_A_FAILURE.match(error_of(t["s"]))


def error_of(s):
    """second argument of Result<A, B>"""
    s = norm(s)
    s = s[s.index("<") + 1:-1]
    depth = 0
    for i, ch in enumerate(s):
        if ch in "<([":
            depth += 1
        elif ch in ")]" or (ch == ">" and s[i - 1] not in "-="):
            depth -= 1
        elif ch == "," and depth == 0:
            return s[i + 1:].strip()
    return ""


def kind(F, ti):
    t = F.ty(ti) or {}
    if t.get("k") != "adt":
        return t.get("k") or ""
    return norm(t["name"]).rsplit("::", 1)[-1]


def local_of(o):
    """local moved or copied whole by an operand"""
    for k in ("mv", "cp"):
        if k in o and len(o[k]) == 1:
            return o[k][0]
    return None


def mentions(o, l):
    if isinstance(o, list):
        if o and isinstance(o[0], int) and not isinstance(o[0], bool) and o[0] == l and (len(o) == 1 or isinstance(o[1], (list, str))):
            return True
        return any(mentions(x, l) for x in o)
    if isinstance(o, dict):
        return any(mentions(x, l) for x in o.values())
    return False


def body(ctx, F, b, n, seen):
    for i, t, nm, decl in scan.calls(b):
        if t["t"] is None:
            continue
        d = t["d"]
        if len(d) == 1:
            ti = b.locals[d[0]][0]
        else:
            continue
        if not failing(F, ti) or d[0] == 0:
            continue
        if decl and (KEEP.search(decl) or decl.endswith("from_residual")):
            continue                    # followed from the call it adapts
        if not failing(F, b.locals[0][0]) and scalars(F, b, t):
            continue                    # a number that may or may not have a name
        key = (b.defn, b.where(i), decl)
        n["calls"] += 1
        n["functions"].add(b.defn)
        why = Follow(F, b, n).value(d[0], 1, t["t"], 0, i)
        what = "%s of %s" % (short(decl or "call"), short(b.defn))
        if why is None:
            if key not in seen:
                seen.add(key)
                ctx.ok("failure-reaches-the-caller", what, b.where(i))
        elif why[0] == "open":
            ctx.open("%s at %s: %s" % (what, b.where(i), why[1]))
        else:
            ctx.bad("failure-reaches-the-caller", what, b.where(i), why[1])


def scalars(F, b, t):
    """all arguments are plain numbers"""
    for a in t["a"]:
        if "c" in a:
            continue
        p = a.get("mv") or a.get("cp")
        if len(p) != 1 or F.tstr(b.locals[p[0]][0]) not in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"):
            return False
    return bool(t["a"])


def short(s):
    s = re.sub(r"\{closure#\d+\}", "{closure}", s)
    s = re.sub(r"\b(oxyroot|std)::([a-z_0-9]+::)*", "", s)
    return s


class Follow:
    def __init__(self, F, b, n):
        self.F, self.b, self.n = F, b, n
        self.busy = set()

    def value(self, l, fail, bb, si, origin):
        """follow the value in local l, which means failure when its variant (or truth) is `fail`, from a program point;
        None when it is dealt with on every path"""
        if l == 0:
            return None
        if (l, fail, bb, si) in self.busy:
            return None
        self.busy.add((l, fail, bb, si))
        work, done = [(bb, si)], set()
        while work:
            bb, si = work.pop()
            if (bb, si) in done:
                continue
            done.add((bb, si))
            r = self.block(l, fail, bb, si, origin)
            if r is None:
                continue
            if r[0] in ("lost", "open"):
                return r
            for s in r[1]:
                if s == origin:
                    return ("lost", "the result is overwritten by the next round without being examined")
                work.append((s, 0))
        return None

    def block(self, l, fail, bb, si, origin):
        """None: dealt with; ("next", blocks); ("lost", why)"""
        b = self.b
        bl = b.blocks[bb]
        for k in range(si, len(bl["s"])):
            s = bl["s"][k]
            if s[0] != "=":
                continue
            dst, rv = s[1], s[2]
            if not mentions(rv, l):
                if dst == [l]:
                    return ("lost", "the result is overwritten without being examined")
                continue
            if rv[0] == "use":
                m = local_of(rv[1])
                if m == l:
                    if len(dst) == 1:
                        return self.value(dst[0], fail, bb, k + 1, origin)
                    return None                 # stored
                return None                     # its payload is taken
            if rv[0] in ("ref", "addr", "rawptr"):
                p = rv[2]
                if p == [l] or p == [l, "*"]:
                    if len(dst) == 1:
                        r = self.value(dst[0], fail, bb, k + 1, origin)
                        if r is None:
                            return None
                        if r[0] == "lost" and r[1].startswith("the result is never"):
                            continue            # this borrow does not deal with it
                        return r
                    return None
                return None
            if rv[0] == "discr":
                if len(dst) != 1:
                    return ("open", "a discriminant stored in a place")
                return self.value_switch(dst[0], fail, bb, k + 1, origin)
            if rv[0] == "un" and len(dst) == 1:
                return self.value(dst[0], 1 - fail, bb, k + 1, origin)
            return None                         # part of an aggregate
        t = bl["t"]
        k = t["k"]
        if k == "return":
            return ("lost", "the result is never examined on a path to the return")
        if k == "switch" and mentions(t["d"], l):
            return self.edges(t, fail, origin)
        if k == "call" and mentions(t["a"], l):
            f = t["f"]
            decl = norm(f.get("decl") or f.get("def") or "") if f.get("kind") != "indirect" else ""
            return self.call(t, decl, l, fail, bb, origin)
        if k in ("goto", "drop", "assert"):
            return ("next", [t["t"]])
        if k == "call":
            return ("next", [t["t"]] if t["t"] is not None else [])
        if k == "switch":
            return ("next", [x[1] for x in t["br"]] + [t["o"]])
        return None

    def call(self, t, decl, l, fail, bb, origin):
        if t["t"] is None:
            return None
        d = t["d"]
        nxt = t["t"]
        if FMT.search(decl):
            return ("next", [nxt])              # printing is not dealing with it
        if DIE.search(decl):
            return None
        if len(d) != 1:
            return None
        if decl.endswith("Try::branch"):
            return self.value(d[0], 1, nxt, 0, origin)
        if KEEP.search(decl) or OPT.search(decl):
            return self.value(d[0], fail, nxt, 0, origin)
        if decl.endswith("Result::ok"):
            return self.value(d[0], 0, nxt, 0, origin)
        if decl.endswith("Result::err"):
            return self.value(d[0], 1, nxt, 0, origin)
        if decl.endswith(("Option::ok_or", "Option::ok_or_else")):
            return self.value(d[0], 1, nxt, 0, origin)
        if decl.endswith(("Result::is_ok", "Option::is_some")):
            return self.value(d[0], 0 if fail == 1 or decl.endswith("is_some") else 1, nxt, 0, origin)
        if decl.endswith(("Result::is_err", "Option::is_none")):
            return self.value(d[0], 1, nxt, 0, origin)
        if LOSE.search(decl):
            if decl.endswith("_else") and self.diverges(t):
                return None
            return ("lost", "a failure is replaced by a value (%s)" % decl.rsplit("::", 1)[1])
        if decl in ("std::mem::drop", "std::mem::forget"):
            return ("lost", "the result is dropped")
        return None                             # handed on

    def diverges(self, t):
        for a in t["a"][1:]:
            m = local_of(a)
            if m is None:
                continue
            for bl in self.b.blocks:
                for s in bl["s"]:
                    if s[0] == "=" and s[1] == [m] and s[2][0] == "agg" and s[2][1] == "closure":
                        for x in s[2]:
                            y = self.F.bodies.get(x) if isinstance(x, str) else None
                            if y is not None and not any(z["t"]["k"] == "return" for z in y.blocks):
                                return True
                        c = self.F.tstr(s[2][2]) if isinstance(s[2][2], int) else ""
                        for y in self.F.bodies.values():
                            if y.where().rsplit(":", 1)[0] in c and "closure" in y.name and ":%d:" % y.line in c and \
                                    not any(i in cfg(y).reach and z["t"]["k"] == "return" for i, z in enumerate(y.blocks)):
                                return True
        return False

    def value_switch(self, x, fail, bb, si, origin):
        """x holds the discriminant: follow to the switch"""
        return self.value(x, fail, bb, si, origin)

    def edges(self, t, fail, origin):
        br = {v: s for v, s in t["br"]}
        s = br.get(fail, t["o"])
        if fail == 1 and 1 not in br and len(br) == 2:
            s = t["o"]
        self.n["failure edges"] += 1
        return self.reports(s, origin)

    def reports(self, bb, origin):
        """on every path from the failure edge to the return an error is made"""
        b, F = self.b, self.F
        ret = kind(F, b.locals[0][0])
        work, done = [bb], set()
        while work:
            bb = work.pop()
            if bb in done:
                continue
            done.add(bb)
            bl = b.blocks[bb]
            made = False
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1] == "adt":
                    k = kind(F, rv[2])
                    if (k == "Result" and rv[4] == 1) or (k == "Option" and rv[4] == 0 and ret == "Option") or \
                            (k == "Poll" or (k == "ControlFlow" and rv[4] == 1)):
                        made = True
                        break
                if s[1] == [0] and rv[0] == "use":
                    c = rv[1].get("c") if isinstance(rv[1], dict) else None
                    if c is not None and ret == "Option":
                        v = c.get("v")
                        if isinstance(v, dict) and (v.get("variant") == 0 or "None" in str(v)):
                            made = True
                            break
                    if ret == "bool" and c is not None:
                        made = True
                        break
                    if local_of(rv[1]) is not None and failing(F, b.locals[local_of(rv[1])][0]):
                        made = True
                        break
            if made:
                continue
            t = bl["t"]
            k = t["k"]
            if k == "return":
                return ("lost", "a failure does not reach the caller: a path from it (block at line %d) returns without an error"
                        % b.line_of(bb))
            if k == "call":
                f = t["f"]
                decl = norm(f.get("decl") or f.get("def") or "") if f.get("kind") != "indirect" else ""
                if decl.endswith("FromResidual::from_residual"):
                    continue
                if t["d"] == [0] and failing(F, b.locals[0][0]) and not decl.endswith("::Ok"):
                    continue
                if t["t"] is None:
                    continue
                work.append(t["t"])
            elif k in ("goto", "drop", "assert"):
                work.append(t["t"])
            elif k == "switch":
                work += [x[1] for x in t["br"]] + [t["o"]]
        return None
