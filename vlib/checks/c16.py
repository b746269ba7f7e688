"""C16: a branch is announced, named and read as the type it holds."""
import re
from absint import C, S, Interp, State, NONE, ok, show, some, strip, subterms
from core import rel
from facts import norm
from iofx import IO
import members

RULE = ("WriterTree::new_branch is interpreted abstractly for every type of a witness program; the branch it adds to the tree is a "
        "concrete term, and every member of its record (fields found through the streamer description of TBranch, TBranchElement "
        "and TLeaf) must be ROOT's for the type. Branch::item_type_name is interpreted on those branches, on the same branches "
        "with other dimensions in the title, and on a member of a split class for every type code of ROOT's: the name it returns "
        "must be the C++ type. Branch::as_iter is interpreted for every type of the witness and every one of those names: it "
        "answers Ok exactly for the names of the type's width, sign and kind.")
ASSUMPTIONS = ["the regular expressions of the code mean what Python's re takes them for (no syntax that differs is in use)",
               "element types: the eleven number types, String, arrays, vectors, sets and slices of them"]

#          C++ name     code bytes signed leaf
NUM = {"bool": ("bool", "O", 1, True, "TLeafO"), "u8": ("uint8_t", "b", 1, False, "TLeafB"), "i8": ("int8_t", "B", 1, True, "TLeafB"),
       "u16": ("uint16_t", "s", 2, False, "TLeafS"), "i16": ("int16_t", "S", 2, True, "TLeafS"),
       "u32": ("uint32_t", "i", 4, False, "TLeafI"), "i32": ("int32_t", "I", 4, True, "TLeafI"),
       "u64": ("uint64_t", "l", 8, False, "TLeafL"), "i64": ("int64_t", "L", 8, True, "TLeafL"),
       "f32": ("float", "F", 4, True, "TLeafF"), "f64": ("double", "D", 8, True, "TLeafD")}
TEXT = ("string", "char*", "TString")
# the type codes of the members of a split class (TVirtualStreamerInfo::EReadWrite)
CODES = {1: "int8_t", 2: "int16_t", 3: "int32_t", 4: "int64_t", 5: "float", 8: "double", 11: "uint8_t", 12: "uint16_t", 13: "uint32_t",
         14: "uint64_t", 15: "uint32_t", 16: "int64_t", 17: "uint64_t", 18: "bool"}
DIMS = (("x", None), ("x[7]", 7), ("x[12]", 12), ("x[n]", 0), ("hits_3", None), ("hits_3[n3]", 0), ("ab[250]", 250), ("pos.x[3]", 3),
        ("w[2048]", 2048), ("h2.m-y:z[k.n]", 0), ("z[100000]", 100000), ("a b[10]", 10))


def shape(t):
    """type name of the witness -> (kind, element, count)"""
    t = t.replace(" ", "")
    if t in NUM:
        return ("num", t, 1)
    if t.endswith("::String"):
        return ("text", None, 1)
    m = re.fullmatch(r"\[(.*);(\d+)(?:_usize)?\]", t)
    if m:
        return ("array", m[1], int(m[2]))
    m = re.fullmatch(r"([\w:]+)<(.*)>", t)
    if m:
        k = m[1].rsplit("::", 1)[1]
        return ({"Vec": "vector", "HashSet": "set", "Slice": "slice"}.get(k), m[2], 0)
    return (None, None, 0)


def cpp(t):
    """the C++ types a Rust type stands for"""
    k, e, n = shape(t)
    if k == "num":
        return (NUM[e][0],)
    if k == "text":
        return TEXT
    inner = cpp(e) if k else ()
    pat = {"array": "%s[" + str(n) + "]", "vector": "vector<%s>", "set": "set<%s>", "slice": "%s[]"}.get(k)
    return tuple(pat % x for x in inner) if pat else ()


def text(v):
    """a string value, if it is known"""
    v = strip(v) if v is not None else ("none",)
    if v[0] == "s":
        return v[1]
    if v[0] == "c":
        return str(v[1])
    if v[0] == "call" and v[1].endswith("From<&str>>::from"):
        return text(v[2][0])
    if v[0] == "fmt":
        parts = [text(x) for x in v[2]]
        if None not in parts and v[1].count("{}") == len(parts):
            out = v[1]
            for p in parts:
                out = out.replace("{}", p.replace("{", "\0"), 1)
            return out.replace("\0", "{")
    return None


def regex_hooks(F):
    """regular expressions, statics behind lazy_static and number parsing on known strings"""
    h = {}

    def known(I, v, st):
        return text(I.deref_all(v, st))

    def lazy(I, c):
        b = [x for x in F.mono() if x.name == c.name + "::__static_ref_initialize"]
        if len(b) != 1:
            return NotImplemented
        _, v, st = Interp(F, hooks=h).run(b[0], [])
        return (v, c.st) if v is not None else NotImplemented

    def new(I, c):
        s = known(I, c.args[0], c.st)
        try:
            re.compile(s or "(")
        except re.error:
            return NotImplemented
        return ok(("regex", s)), c.st

    def search(I, c):
        a, s = I.deref_all(c.args[0], c.st), known(I, c.args[1], c.st)
        if a[0] != "regex" or s is None:
            return None
        return re.search(a[1], s), s

    def captures(I, c):
        r = search(I, c)
        if r is None:
            return NotImplemented
        m = r[0]
        if m is None:
            return NONE, c.st
        return some(("caps",) + tuple(("none",) if m.group(i) is None else S(m.group(i)) for i in range(m.re.groups + 1))), c.st

    def find(I, c):
        r = search(I, c)
        if r is None:
            return NotImplemented
        return (NONE if r[0] is None else some(S(r[0].group(0)))), c.st

    def matches(I, c):
        r = search(I, c)
        return NotImplemented if r is None else (C(int(r[0] is not None)), c.st)

    def group(I, c):
        a, i = I.deref_all(c.args[0], c.st), I.deref_all(c.args[1], c.st)
        if a[0] != "caps" or i[0] != "c":
            return NotImplemented
        x = a[1 + i[1]] if 1 + i[1] < len(a) else ("none",)
        if "Index" in c.decl:
            return (x, c.st) if x != ("none",) else NotImplemented
        return (NONE if x == ("none",) else some(x)), c.st

    def same(I, c):
        return I.deref_all(c.args[0], c.st), c.st

    def parse(I, c):
        s = known(I, c.args[0], c.st)
        if s is None:
            return NotImplemented
        return (ok(C(int(s))) if re.fullmatch(r"[+-]?\d+", s) else ("adt", "std::result::Result", 1, (("p", "notanumber"),))), c.st

    def contains(I, c):
        a, x = I.deref_all(c.args[0], c.st), known(I, c.args[1], c.st)
        if a[0] != "arr" or x is None:
            return NotImplemented
        l = [text(I.deref_all(y, c.st)) for y in a[1]]
        return (C(int(x in l)), c.st) if x in l or None not in l else NotImplemented
    r = "regex::regex::string::"
    h.update({r + "Regex::new": new, r + "Regex::captures": captures, r + "Regex::find": find, r + "Regex::is_match": matches,
              r + "Captures::get": group, "std::ops::Index::index": group, r + "Match::as_str": same,
              "core::str::parse": parse, "core::str::<impl str>::parse": parse, "std::str::parse": parse, "std::str::<impl str>::parse": parse,
              "std::slice::<impl [T]>::contains": contains})
    for x in F.mono():
        if x.name.endswith("::__static_ref_initialize"):
            h[x.name[:-len("::__static_ref_initialize")]] = lazy
            h[norm(x.name[:-len("::__static_ref_initialize")])] = lazy
    return h


class Branches:
    def __init__(self, ctx):
        self.ctx, self.F, self.base = ctx, ctx.facts("witness"), ctx.facts()
        self.io = IO(self.base)
        self.io.F = self.F                                  # its projections look names of fields up here
        self.hooks = regex_hooks(self.F)
        self.M = {}
        for c in ("TBranch", "TBranchElement", "TLeaf", "TLeafElement"):
            m = members.Members(ctx, self.base, c)
            if m.why:
                ctx.open("fields of %s: %s" % (c, m.why))
            self.M[c] = m
        m = [b for b in self.F.mono() if b.name.endswith("branch::Branch::item_type_name")]
        self.namer = m[0] if len(m) == 1 else None
        if self.namer is None:
            ctx.open("Branch::item_type_name is not a single function")
            return
        self.enum = norm(self.F.tstr(self.namer.locals[1][0]).lstrip("&").split(" ")[-1])

    def part(self, v, cls):
        r = []
        for y in subterms(v):
            if y[0] == "adt" and y[1] == self.M[cls].struct and y not in r:
                r.append(y)
        return r[0] if len(r) == 1 else None

    def member(self, v, cls, m):
        x, f = self.part(v, cls), self.M[cls].fields.get(m)
        if x is None or f is None:
            return None
        return strip(self.io.project(f, x))

    def written(self):
        """(type, branch value, function) for every instance of new_branch"""
        for b in sorted((b for b in self.F.mono() if b.name.endswith("WriterTree::new_branch")), key=lambda b: b.id):
            m = [re.search(r"Empty<(.*)>$", self.F.tstr(b.locals[i][0])) for i in range(1, b.argc + 1)]
            m = [x[1] for x in m if x]
            if len(m) != 1:
                continue
            st, r = State(), ("H", ("p", "self"))
            args = [("ref", r, ()), S("x")] + [("p", "it%d" % i) for i in range(3, b.argc + 1)]
            I = Interp(self.F, hooks=self.hooks)
            _, v, st = I.run(b, args, st)
            val = st.store.get(r) if st is not None else None
            br = []
            for y in subterms(val) if val is not None else ():
                if y[0] == "adt" and y[1] == self.enum and y not in br:
                    br.append(y)
            yield m[0], (br[0] if len(br) == 1 else None), b

    def named(self, br):
        """what item_type_name answers for a branch: a string, None (it never returns), or False (unknown)"""
        st, r = State(), ("H", ("p", "branch"))
        st.store[r] = br
        _, v, st = Interp(self.F, hooks=self.hooks).run(self.namer, [("ref", r, ())], st)
        if v is None:
            return None
        t = text(v)
        return t if t is not None else False

    def put(self, br, cls, m, x):
        """the branch with another value of a member of the only such part"""
        old = self.part(br, cls)
        f = self.M[cls].fields.get(m)
        path = []
        while f is not None and f[0] == "fld":
            path.insert(0, f[2])
            f = strip(f[1])
        if old is None or f != ("p", "self") or not path:
            return None
        new = self.io.setf(old, path, lambda _: x)

        def rep(t):
            if t == old:
                return new
            return tuple(rep(y) for y in t) if isinstance(t, tuple) else t
        return rep(br)


def announced(ctx, B, t, br, b):
    k, e, n = shape(t)
    sub, where = "%s:new_branch" % t, rel(b.where())

    def need(rule, v, want, what, shown=None):
        v = strip(v) if v is not None else None
        if v is None or v[0] not in ("c", "s"):
            ctx.open("%s of a branch of %s: %s" % (what, t, "not found" if v is None else show(v)[:80]))
        else:
            ctx.ob(rule, sub, where, v[1] == want, "%s of a branch of %s is %r" % (what, t, v[1]) + ("" if v[1] == want else ", not %r" % want))
    if k in ("num", "array"):
        num = NUM[e]
        need("element-size", B.member(br, "TLeaf", "fLenType"), C(num[2])[1], "the element size (fLenType)")
        need("element-count", B.member(br, "TLeaf", "fLen"), n, "the number of elements (fLen)")
        u = B.member(br, "TLeaf", "fIsUnsigned")
        need("sign", u, int(not num[3]), "the sign (fIsUnsigned)") if u is None or u[0] != "c" else \
            ctx.ob("sign", sub, where, bool(u[1]) == (not num[3]), "fIsUnsigned of a branch of %s is %r" % (t, u[1]))
        x = text(B.member(br, "TBranch", "fTitle"))
        if x is None:
            ctx.open("title of a branch of %s" % t)
        else:
            ctx.ob("letter", sub, where, x.rsplit("/", 1)[-1] == num[1] and "/" in x,
                   "the title %r of a branch of %s does not end in ROOT's letter %s" % (x, t, num[1]))
        x = text(B.member(br, "TLeaf", "fTitle"))
        if x is None:
            ctx.open("title of the leaf of a branch of %s" % t)
        else:
            want = "x" if k == "num" else "x[%d]" % n
            ctx.ob("leaf-title", sub, where, x == want, "the title of the leaf of a branch of %s is %r, not %r" % (t, x, want))
    if k in ("num", "array", "text"):
        want = "TLeafC" if k == "text" else NUM[e][4]
        x = leaf_class(ctx, B, br)
        if x is None:
            ctx.open("class of the leaf of a branch of %s" % t)
        else:
            ctx.ob("leaf-class", sub, where, x == want, "the leaf of a branch of %s is a %s, not a %s" % (t, x, want))
    x = B.member(br, "TBranch", "fEntryOffsetLen")
    if x is None or x[0] != "c":
        ctx.open("fEntryOffsetLen of a branch of %s" % t)
    else:
        ctx.ob("offsets", sub, where, (x[1] > 0) == (k in ("text", "vector")),
               "a branch of %s announces %s table of offsets" % (t, "a" if x[1] > 0 else "no"))
    el = B.part(br, "TBranchElement")
    if k == "vector":
        x = text(B.member(br, "TBranchElement", "fClassName")) if el is not None else ""
        if x is None:
            ctx.open("class name of a branch of %s" % t)
        else:
            ctx.ob("class-name", sub, where, x in cpp(t), "a branch of %s announces the class %r, not %s" % (t, x, " or ".join(cpp(t))))
    else:
        ctx.ob("class-name", sub, where, el is None, "a branch of %s is announced as an object of a class" % t)


def leaf_class(ctx, B, br):
    l = B.part(br, "TLeaf")
    for y in subterms(br):
        if y[0] != "adt" or y[1] == B.enum or len(y[3]) != 1 or l not in list(subterms(y)):
            continue
        for b in B.base.mono():
            if b.argc == 1 and b.name.endswith(" as oxyroot::root::traits::Object>::class") and norm(b.name[1:].split(" as ")[0]) == y[1]:
                st, r = State(), ("H", ("p", "leaf"))
                st.store[r] = y
                _, v, st = Interp(B.base).run(b, [("ref", r, ())], st)
                return text(v)
    return None


def gate(ctx, B, names):
    n = 0
    for b in sorted((b for b in B.F.mono() if b.name.endswith("branch::Branch::as_iter")), key=lambda b: b.id):
        ts = [a for a in b.args if isinstance(a, int)]
        t = B.F.tstr(ts[0]) if len(ts) == 1 else None
        if t is None or not cpp(t):
            ctx.open("type read by %s" % b.name)
            continue
        where, n = rel(b.where()), n + 1
        for tn in names:
            asked = []

            def name(I, c):
                asked.append(tn)
                return S(tn), c.st
            h = dict(B.hooks)
            h[B.namer.defn] = name
            h["oxyroot::rtree::branch::Branch::get_basket"] = lambda I, c: (("p", "baskets"), c.st)
            I = Interp(B.F, hooks=h)
            I.refusals = True
            seq, v, st = I.run(b, [("ref", ("H", ("p", "self")), ())], State())
            v = strip(v) if v is not None else None
            g = next((x for x in subterms(tuple(seq)) if x[0] == "guard" and x[3] == "err"), None)
            if v is not None and g is not None:
                ctx.open("as_iter::<%s> of a branch of %s: whether %s" % (t, tn, show(g[1])[:80]))
                continue
            if v is None or v[0] == "adt" and v[2] == 1:
                taken = False
            elif v[0] == "adt" and v[2] == 0:
                taken = True
            else:
                ctx.open("as_iter::<%s> of a branch of %s: %s" % (t, tn, show(v)[:80]))
                continue
            want = tn in cpp(t)
            ctx.ob("reads" if want else "refuses", "as_iter::<%s>:%s" % (t, tn), where, taken == want,
                   "a branch of %s is %s as %s" % (tn, "read" if taken else "not read", t))
    return n


def check(ctx):
    B = Branches(ctx)
    if B.namer is None or any(m.why for m in B.M.values()):
        return
    done, element, nnames = set(), None, 0
    where = rel(B.namer.where())

    def name_is(sub, br, want, what):
        got = B.named(br)
        if got is False:
            ctx.open("item_type_name of %s" % what)
        else:
            ctx.ob("named", sub, where, got in want, "item_type_name of %s %s, not %s" % (
                what, "never returns" if got is None else "is %r" % got, " or ".join(want)))
    for t, br, b in B.written():
        k, e, n = shape(t)
        if k is None:
            continue
        if br is None or B.part(br, "TLeaf") is None:
            ctx.open("the branch new_branch::<%s> adds" % t)
            continue
        done.add(t)
        ctx.attempt("branch of " + t, announced, ctx, B, t, br, b)
        if k in ("num", "array", "text"):
            ctx.attempt("name of " + t, name_is, "%s:written" % t, br, cpp(t) if k != "text" else ("char*",), "a branch written as %s" % t)
            nnames += 1
        if k == "num":
            for title, d in DIMS:
                x = B.put(br, "TLeaf", "fTitle", S(title))
                if x is None:
                    ctx.open("leaf with title %r" % title)
                    continue
                want = NUM[e][0] + ("" if d is None else "[%d]" % d if d else "[]")
                ctx.attempt("name of " + t, name_is, "%s:%s" % (t, title), x, (want,), "a leaf of %s with title %r" % (t, title))
                nnames += 1
        if k == "vector" and element is None:
            element = br
    if element is not None:
        for code, want in sorted(CODES.items()):
            for add, titles in ((0, (("m", None),)), (20, (("m[6]", 6),)), (40, (("m[n]", 0),))):
                for title, d in titles:
                    x = B.put(element, "TLeafElement", "fType", C(code + add))
                    x = B.put(x, "TLeaf", "fTitle", S(title)) if x is not None else None
                    if x is None:
                        ctx.open("a leaf of a split class")
                        continue
                    y = want + ("" if d is None else "[%d]" % d if d else "[]")
                    ctx.attempt("code %d" % (code + add), name_is, "code-%d:%s" % (code + add, title), x, (y,),
                                "a split member of type code %d with title %r" % (code + add, title))
                    nnames += 1
    names = sorted({x for t in NUM for x in cpp(t)} | set(TEXT) | {"int32_t[3]", "int32_t[4]", "uint8_t[4]", "uint64_t[5]", "bool[2]",
                   "int16_t[6]", "int16_t[]", "double[]", "vector<int32_t>", "vector<uint8_t>", "vector<double>", "vector<vector<int16_t>>",
                   "set<int32_t>", "int32_t[]", "unknown"})
    n = gate(ctx, B, names)
    ctx.count("types written", len(done))
    ctx.count("names asked", nnames)
    ctx.count("types read", n)
    ctx.floor("types written", len(done), 18)
    ctx.floor("types read", n, 20)
