"""Wire trees: what a marshaller puts on the wire / what an unmarshaller takes off it, as a tree of tokens with
alternatives and counted loops, obtained by abstract interpretation of MIR (absint)."""
from absint import Interp, ok, C, NONE, UNIT, show, strip, some
import logic
from logic import simp, unref

RB = "oxyroot::rbytes::rbuffer::RBuffer::"
WB = "oxyroot::rbytes::wbuffer::WBuffer::"
HEADER = "oxyroot::rbytes::Header"

WIDTH = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
PRIMS = tuple(WIDTH)


def kindclass(k):
    return ("f" if k[0] == "f" else "i") + str(WIDTH[k])


RD_ARR = {"read_array_u8_into": "u8", "read_array_i16_into": "i16", "read_array_i32": "i32", "read_array_i64": "i64"}
WR_ARR = {"write_array_u8": "u8", "write_array_i64": "i64", "write_array_i32": "i32", "write_array_i16": "i16",
          "write_array_i8": "i8", "write_array_u64": "u64", "write_array_u32": "u32", "write_array_u16": "u16"}


def arrlen(I, v, st):
    import models
    return models.vlen(I, I.deref_all(v, st), st) if hasattr(models, "vlen") else I.length(v, st)


def reader_hooks(header_vers=None):
    """header_vers: {class name: version} used to specialise the reader to what the writer emits"""
    h = {}

    def mk(kind):
        def f(I, c):
            v = ("rd", kind, I.fresh())
            c.seq.append(("ev", "R", "prim", kind, v, c.site))
            return ok(v), c.st
        return f
    for k in PRIMS:
        h[RB + "read_" + k] = mk(k)

    def mkarr(kind):
        def f(I, c):
            v = ("rd", "arr:" + kind, I.fresh())
            n = I.length(I.deref_all(c.args[1], c.st), c.st)
            c.seq.append(("ev", "R", "arr", kind, v, n, c.site))
            st = c.st
            a = c.args[1]
            m = 0
            while a[0] == "ref" and m < 5:
                nx = I.pick(I.load(st, a[1], a[2]), st)
                if nx[0] != "ref":
                    break
                a = nx
                m += 1
            if a[0] == "ref":
                st = st.copy()
                I.store_to(st, a[1], a[2], v, c.site)
            return ok(UNIT), st
        return f
    for m, k in RD_ARR.items():
        h[RB + m] = mkarr(k)

    def rau8(I, c):
        v = ("rd", "arr:u8", I.fresh())
        c.seq.append(("ev", "R", "arr", "u8", v, I.deref_all(c.args[1], c.st), c.site))
        return ok(v), c.st
    h[RB + "read_array_u8"] = rau8

    def rstr(kind):
        def f(I, c):
            v = ("rd", kind, I.fresh())
            c.seq.append(("ev", "R", kind, v, c.site))
            return ok(v), c.st
        return f
    h[RB + "read_string"] = rstr("str")
    h[RB + "read_cstring"] = rstr("cstr")

    def rhdr(I, c):
        u = I.fresh()
        cl = I.deref_all(c.args[1], c.st)
        name = cl[1] if cl[0] == "s" else None
        vers = None
        if header_vers is not None:
            vers = header_vers(name)
        vv = C(vers) if vers is not None else ("rd", "vers", u)
        c.seq.append(("ev", "R", "hdr", cl, vv, u, c.site))
        # field order of Header is taken from its definition
        return ok(hdr_value(I, cl, ("rdpos", u), vv, ("rd", "hlen", u))), c.st
    h[RB + "read_header"] = rhdr
    h[RB + "check_header"] = lambda I, c: (ok(UNIT), c.st)

    def robj(I, c):
        v = ("rd", "objany", I.fresh())
        c.seq.append(("ev", "R", "objany", v, c.site))
        return ok(v), c.st
    h[RB + "read_object_any_into"] = robj

    def seek(kind):
        def f(I, c):
            v = tuple(I.deref_all(a, c.st) for a in c.args[1:])
            c.seq.append(("ev", "R", "seek", kind, v, c.site))
            return (ok(UNIT) if kind != "set_pos" else UNIT), c.st
        return f
    for k in ("set_pos", "skip", "rewind"):
        h[RB + k] = seek(k)

    def pos(I, c):
        return ("rdpos", I.fresh()), c.st
    h[RB + "pos"] = pos
    h[RB + "len"] = lambda I, c: (("rdlen", I.fresh()), c.st)
    return h


def hdr_value(I, name, pos, vers, ln):
    t = I.facts.adt_by_name[HEADER]
    m = {"_name": name, "name": name, "pos": pos, "vers": vers, "len": ln}
    return ("adt", t["name"], 0, tuple(m.get(f[0], ("top", "hdr")) for f in t["variants"][0]["fields"]))


def writer_hooks():
    h = {}

    def mk(kind):
        def f(I, c):
            v = I.deref_all(c.args[1], c.st)
            c.seq.append(("ev", "W", "prim", kind, v, c.site))
            return ok(UNIT), c.st
        return f
    for k in PRIMS:
        h[WB + "write_" + k] = mk(k)

    def mkarr(kind):
        def f(I, c):
            v = I.deref_all(c.args[1], c.st)
            c.seq.append(("ev", "W", "arr", kind, v, I.length(v, c.st), c.site))
            return ok(UNIT), c.st
        return f
    for m, k in WR_ARR.items():
        h[WB + m] = mkarr(k)

    def wstr(kind):
        def f(I, c):
            v = I.deref_all(c.args[1], c.st)
            c.seq.append(("ev", "W", kind, v, c.site))
            return ok(UNIT), c.st
        return f
    h[WB + "write_string"] = wstr("str")
    h[WB + "write_cstring"] = wstr("cstr")

    def whdr(I, c):
        u = I.fresh()
        cl = I.deref_all(c.args[1], c.st)
        v = I.deref_all(c.args[2], c.st)
        c.seq.append(("ev", "W", "hdr", cl, v, u, c.site))
        return ok(hdr_value(I, cl, ("wpos", u), v, ("whdr", u))), c.st
    h[WB + "write_header"] = whdr

    def shdr(I, c):
        v = I.deref_all(c.args[1], c.st)
        u = None
        if v[0] == "adt":
            for x in v[3]:
                if x[0] == "wpos":
                    u = x[1]
        c.seq.append(("ev", "W", "endhdr", u, c.site))
        return ok(("hdrsize", u)), c.st
    h[WB + "set_header"] = shdr

    def wip(I, c):
        v = tuple(I.deref_all(a, c.st) for a in c.args[1:])
        c.seq.append(("ev", "W", "inplace", v, c.site))
        return ok(UNIT), c.st
    h[WB + "write_in_place"] = wip

    def woa(I, c):
        v = I.deref_all(c.args[1], c.st)
        a = I.deref_all(c.args[2], c.st)
        c.seq.append(("ev", "W", "objany", v, a, c.site))
        return ok(("wsize", I.fresh())), c.st
    h[WB + "write_object_any"] = woa

    def wnil(I, c):
        c.seq.append(("ev", "W", "nil", c.site))
        return ok(C(0)), c.st
    h[WB + "write_object_nil"] = wnil
    h[WB + "pos"] = lambda I, c: (("wpos", I.fresh()), c.st)
    h[WB + "len"] = lambda I, c: (("wlen", I.fresh()), c.st)
    h[WB + "p"] = lambda I, c: (("ref", ("H", ("wbytes",)), ()), c.st)
    return h


# ---------------------------------------------------------------------------- normalised trees
def mentions_log(cond):
    """conditions of the `log` macros: comparisons against a constant log level"""
    import absint
    return any(x[0] == "adt" and x[1].endswith(("log::Level", "log::LevelFilter", "Level")) and not x[3]
               for x in absint.subterms(cond))


def touches_buffer(args):
    import absint
    return any(x in (("p", "r"), ("p", "w")) for a in args for x in absint.subterms(a))


def is_exit(fate, hdr):
    parts = str(fate).split("|")
    return hdr not in parts and "fall" not in parts


def norm_seq(seq, loop_header=None):
    out = []
    for e in seq:
        k = e[0]
        if k == "ev":
            out.append(e)
        elif k == "guard":
            out.append(("guard", e[1], e[2], e[3], e[5]))
        elif k == "alt":
            arms = [(l, norm_seq(s, loop_header), f) for l, s, f in e[2]]
            dead = [a for a in arms if a[2] in ("err", "dead")]
            live = [a for a in arms if a[2] not in ("err", "dead")]
            for l, s, f in dead:
                out.append(("guard", e[1], l, f, e[3]))
            if loop_header is not None:
                stay = [a for a in live if not is_exit(a[2], loop_header)]
                leave = [a for a in live if is_exit(a[2], loop_header)]
                if leave and stay:
                    out.append(("exitif", e[1], tuple((l, s) for l, s, f in leave), e[3]))
                    live = stay
            if not any(a[1] for a in live):
                if len(live) + len(dead) > 1 and dead:
                    pass
                continue
            if len(live) == 1:
                out.extend(live[0][1])
            else:
                # identical arms: the condition does not matter
                if all(sk(a[1]) == sk(live[0][1]) for a in live):
                    out.extend(live[0][1])
                else:
                    out.append(("alt", e[1], tuple((l, tuple(s)) for l, s, f in live), e[3]))
        elif k == "loop":
            hdr = str(e[1][1]) if e[1][0] != "ext" else None
            body = norm_seq(e[2], hdr if hdr is not None else "~none~")
            exits = [x for x in body if x[0] == "exitif"]
            body = [x for x in body if x[0] not in ("exitif",)]
            if not has_tokens(body):
                continue
            out.append(("loop", e[1], tuple(exits), tuple(body), e[3]))
        elif k == "vcall":
            if touches_buffer(e[2]):
                out.append(e)
        elif k in ("icall", "rec"):
            out.append(e)
    return out


def sk(nodes):
    """shape used to compare alternatives"""
    out = []
    for n in nodes:
        if n[0] == "ev":
            out.append(n[1:4] if n[2] in ("prim", "arr") else n[1:3])
            if n[1] == "W":
                out.append(n[3:-1])
            else:
                out.append(("uid", id(n)))
        else:
            out.append(n[:-1])
    return out


def has_tokens(nodes):
    for n in nodes:
        if n[0] == "ev" or n[0] in ("vcall", "icall"):
            return True
        if n[0] == "alt" and any(has_tokens(s) for _, s in n[2]):
            return True
        if n[0] == "loop" and has_tokens(n[3]):
            return True
    return False


def iter_count(it):
    k = it[1]
    if k == "range":
        return logic.fold("Sub", it[3], it[2])
    if k == "src":
        if len(it) > 3:
            return it[3]
        v = unref(it[2])
        return logic.length(v)
    if k in ("map", "enum", "rev", "cloned"):
        return iter_count(it[2])
    if k == "take":
        a = iter_count(it[2])
        if a is None or logic.lin_eq(a, it[3]):
            return a
        return ("phi", ("bin", "Lt", a, it[3]), ((True, a), (False, it[3])))
    return None


def loop_count(I, node):
    """iteration count of a loop as a term, or None when it is not a counted loop"""
    lid, exits = node[1], node[2]
    if lid[0] == "ext":
        return iter_count(lid[3]) if len(lid) > 3 else None
    for x in exits:
        cond = x[1]
        if cond[0] == "discr":
            cond = cond[1]
        if cond[0] == "next":
            return iter_count(cond[1])
        if cond[0] == "bin" and cond[1] == "Lt":
            a, b = strip(cond[2]), cond[3]
            if a[0] == "lv":
                d = I.lvdefs.get(a)
                if d and d.get("init", ("?",))[0] == "c":
                    back = d.get("back")
                    step = logic.linear(logic.fold("Sub", back, a)) if back else {}
                    if set(step) <= {None} and step.get(None) == 1:
                        return logic.fold("Sub", b, d["init"])
    return None


def run_writer(F, body, hooks=None, **kw):
    h = writer_hooks()
    h.update(hooks or {})
    I = Interp(F, hooks=h, **kw)
    args = [("p", "self"), ("p", "w")] + [("p", "a%d" % i) for i in range(2, body.argc)]
    seq, v, st = I.run(body, args[:body.argc])
    return I, norm_seq(seq), v, st


def run_reader(F, body, header_vers=None, hooks=None, **kw):
    h = reader_hooks(header_vers)
    h.update(hooks or {})
    I = Interp(F, hooks=h, **kw)
    if body.argc == 1:
        args = [("p", "r")]
    else:
        args = [("p", "rself"), ("p", "r")] + [("p", "a%d" % i) for i in range(2, body.argc)]
    seq, v, st = I.run(body, args[:body.argc])
    if body.argc > 1:
        res = st.store.get(("H", ("p", "rself")), ("p", "rself")) if st is not None else None
    else:
        res = v
    return I, norm_seq(seq), res, st


def headers(nodes, out=None):
    """[(class term, version term)] in order of appearance"""
    if out is None:
        out = []
    for n in nodes:
        if n[0] == "ev" and n[2] == "hdr":
            out.append((n[3], n[4]))
        elif n[0] == "alt":
            for _, s in n[2]:
                headers(s, out)
        elif n[0] == "loop":
            headers(n[3], out)
    return out


def dump(nodes, d=0, out=None):
    p = "  " * d
    for n in nodes:
        if n[0] == "ev":
            print(p + " ".join([n[1], n[2]] + [show(x)[:110] if isinstance(x, tuple) else str(x) for x in n[3:-1]]))
        elif n[0] == "guard":
            print(p + "GUARD", show(n[1])[:120], n[2], n[3])
        elif n[0] == "alt":
            print(p + "ALT", show(n[1])[:120])
            for l, s in n[2]:
                print(p + " ->", l)
                dump(s, d + 2)
        elif n[0] == "loop":
            print(p + "LOOP", [show(x[1])[:80] for x in n[2]])
            dump(n[3], d + 1)
        else:
            print(p + n[0], str(n[1])[:100])
