"""C05: a record of a version newer than implemented is refused with an error, before its payload is interpreted."""
import db, wire
from absint import Interp, C, RES, strip, show, ok
from c01 import bodies
from core import rel
from wire import RB

RULE = ("The reader of every versioned class is abstractly interpreted with the version in its own header set to a constant: "
        "the newest version the class is described with, that version plus one, and far beyond. Above the newest version every "
        "path must end in an error, with nothing read after the header; at the newest version some path must succeed. The "
        "same is done below the oldest layout that the two readers with a lower limit (TTree, TList) implement.")
ASSUMPTIONS = ["the newest version of a class is the one in the built-in description, or the one the library writes"]
# classes with no description and no writer: version in ROOT at the release the reader follows
MAXV = {"TMap": 3, "TList": 5, "TObjArray": 3, "TIOFeatures": 1}
# oldest layouts that are not implemented by the reader (ROOT's streamers change at the next version)
MIN = {"TTree": 4, "TList": 3}
# a reader whose header carries the class under a name computed at run time
NAMED = {"ReaderList": "TList"}


def leaves(v, out=None):
    out = [] if out is None else out
    if v is None:
        return out
    if v[0] == "phi":
        for a in v[2]:
            leaves(a[1], out)
    else:
        out.append(v)
    return out


def outcome(v):
    """'err' | 'ok' | 'both' | 'none' of a returned Result"""
    s = set()
    for x in leaves(v):
        if x[0] == "adt" and x[1] == RES:
            s.add("err" if x[2] == 1 else "ok")
        else:
            s.add("?")
    if not s:
        return "none"
    return s.pop() if len(s) == 1 else "both"


def events(seq):
    """number of wire tokens in a raw event sequence"""
    n = 0
    for e in seq:
        if e[0] == "ev" and e[1] == "R":
            n += 1
        elif e[0] == "alt":
            n += max([events(a[1]) for a in e[2]] or [0])
        elif e[0] in ("guard", "loop"):
            n += events([x for x in e if isinstance(x, (list, tuple)) and x and isinstance(x[0], tuple)] and [] or [])
    return n


def run_vers(F, b, vers):
    """reader run with the first header it reads carrying `vers`; (result, tokens after the header, class read)"""
    st8 = {"n": 0, "cls": None}

    def hv(name):
        st8["n"] += 1
        if st8["n"] == 1:
            st8["cls"] = name
            return vers
        return None
    I = Interp(F, hooks=wire.reader_hooks(hv))
    seq, v, st = I.run(b, args(b))
    toks = wire.norm_seq(seq)
    return outcome(v), max(0, events(toks) - 1), st8["cls"], v


def args(b):
    return [("p", "r")] if b.argc == 1 else [("p", "rself"), ("p", "r")] + [("p", "a%d" % i) for i in range(2, b.argc)]


def run_basket(F, b, vers):
    """TBasket's version is a plain i16 after the three strings of its key"""
    h = wire.reader_hooks()
    st8 = {"s": 0, "done": False}
    rs, r16 = h[RB + "read_string"], h[RB + "read_i16"]

    def s(I, c):
        st8["s"] += 1
        return rs(I, c)

    def i16(I, c):
        if st8["s"] >= 3 and not st8["done"]:
            st8["done"] = True
            v, st = r16(I, c)
            c.seq.append(("mark", c.site))
            return ok(C(vers)), st
        return r16(I, c)
    h[RB + "read_string"], h[RB + "read_i16"] = s, i16
    I = Interp(F, hooks=h)
    seq, v, st = I.run(b, args(b))
    after = None
    for e in seq:
        if e[0] == "mark":
            after = 0
        elif after is not None and e[0] == "ev" and e[1] == "R":
            after += 1
    return outcome(v), after, "TBasket" if st8["done"] else None, v


def check(ctx):
    F = ctx.facts()
    W, R = bodies(F)
    vals, _, _ = db.raw(ctx, F)
    maxv = dict(MAXV)
    for v in vals:
        n, ver = db.const(db.find(F, v, "name")), db.const(db.find(F, v, "clsver"))
        if n and ver:
            maxv[n] = ver
    done = {}

    def one(r, b):
        short = r.rsplit("::", 1)[-1]
        run = run_basket if short == "Basket" else run_vers
        out, n, cls, _ = run(F, b, 32000)
        if cls is None and short in NAMED:
            cls = NAMED[short]
        if cls is None:
            return
        first = wire.run_reader(F, b)[1] if short != "Basket" and "Tree" not in short and "Branch" not in short else None
        if first and not (first[0][0] == "ev" and first[0][2] == "hdr"):
            return
        if cls not in maxv:
            ctx.open("%s: newest version of %s is not known" % (r, cls))
            return
        m = maxv[cls]
        w = rel(b.where())
        subj = "%s (%s)" % (cls, b.name.rsplit("::", 1)[-1])
        done[cls] = done.get(cls, 0) + 1
        for vers in (m + 1, 32000):
            if vers != 32000:
                out, n, _, v = run(F, b, vers)
            # every path must end in an error; anything else means the record is interpreted
            ctx.ob("newer-version-refused", "%s v%s" % (subj, "newest+1" if vers != 32000 else "32000"), w,
                   out == "err" or (out == "?" and n == 0),
                   "version %d (newest is %d) is not refused with an error on every path (%s)" % (vers, m, out))
            ctx.ob("refused-before-payload", "%s v%s" % (subj, "newest+1" if vers != 32000 else "32000"), w,
                   out != "err" or not n, "%s values are read after the header before refusing" % n)
        out, n, _, v = run(F, b, m)
        ctx.ob("newest-version-accepted", subj, w, out in ("ok", "both", "?"),
               "version %d, the newest, is refused: %s" % (m, show(v)[:200] if v else out))
        if cls in MIN:
            out, n, _, v = run(F, b, MIN[cls])
            ctx.ob("unimplemented-old-layout-refused", subj, w, out == "err",
                   "version %d has a layout that is not implemented, and is not refused" % MIN[cls])
            out, n, _, v = run(F, b, MIN[cls] + 1)
            ctx.ob("oldest-implemented-accepted", subj, w, out in ("ok", "both", "?"),
                   "version %d is refused" % (MIN[cls] + 1))
    for r, l in sorted(R.items()):
        for b in l:
            ctx.attempt("reader of " + r, one, r, b)
    ctx.cover["classes"] = sorted(done)
    ctx.floor("classes with a version gate analysed", len(done), 33)
