"""C09: reading a file changes nothing; only RootFile::create makes or empties a file, the one at the path it is given."""
import re
import scan
from facts import norm

RULE = ("Every call and function value in the library and the two programs that names something outside them is classified by its effect. "
        "Opening for writing, creating and truncating may be reached only through RootFile::create (closure of the call graph); "
        "the programs may not contain it at all; nothing may delete, rename, resize, link or re-permission a file, start a "
        "process, open a socket or change the environment. The path given to every open and create is traced back to its origin, "
        "which must be the path given to RootFile::open or RootFile::create; what RootFile::create opens is truncated.")
ASSUMPTIONS = ["flate2, xz2, lz4, regex, chrono, uuid, log and env_logger have no effect on files; clap only reads the arguments"]

OTHER = re.compile(r"^std::fs::(remove_|rename|copy|hard_link|soft_link|create_dir|set_permissions|set_times|DirBuilder|Permissions::set)"
                   r"|^std::fs::File::(set_len|set_permissions|set_times|set_modified|lock|try_lock|unlock)"
                   r"|^std::process::(Command|Child|Stdio)|^std::os::|^std::net::|^std::env::(set_|remove_)|^libc::|^nix::|tempfile::"
                   r"|(FromRawFd|FileExt|OpenOptionsExt|PermissionsExt)")
MAKE = re.compile(r"^std::fs::(File::(create|create_new|create_buffered|options)|OpenOptions::(write|append|truncate|create|create_new|open)|write)$")
LOOK = re.compile(r"^std::fs::(File::open|File::open_buffered|File::metadata|File::try_clone|File::sync_|metadata|symlink_metadata|canonicalize|exists|"
                  r"OpenOptions::new|OpenOptions::read|read$|read_to_string|Metadata::|FileType)"
                  r"|^std::env::(args|args_os|var|var_os|current_dir|temp_dir|current_exe)|^std::process::(exit|abort|id|ExitCode)")
FS = re.compile(r"^std::(fs|process|net|env|os)::")
KNOWN = {"std", "core", "alloc", "flate2", "xz2", "lz4", "regex", "chrono", "uuid", "log", "env_logger", "clap", "num_traits", "downcast",
         "lazy_static", "itertools", "nom", "oxyroot", "oxyroot_ls", "oxyroot_dump", "clap_builder", "thiserror", "paste", "clap_derive"}
SAME = re.compile(r"(AsRef::as_ref|as_ref|to_path_buf|Deref::deref|deref|Clone::clone|clone|Into::into|into|From::from|from|as_path|"
                  r"to_owned|ToOwned::to_owned|borrow|Borrow::borrow|Path::new|as_os_str|PathBuf::from|as_str|as_mut|as_ref|to_string|"
                  r"into_boxed_path|into_path_buf|into_os_string|as_mut_os_str)$")
OPENS = {"std::fs::File::open": 0, "std::fs::File::create": 0, "std::fs::File::create_new": 0, "std::fs::OpenOptions::open": 1,
         "std::fs::write": 0, "std::fs::read": 0, "std::fs::read_to_string": 0, "std::fs::File::open_buffered": 0,
         "std::fs::File::create_buffered": 0}
CREATE = "oxyroot::riofs::file::RootFile::create"
OPEN = "oxyroot::riofs::file::RootFile::open"


def plain(n):
    return re.sub(r"::<[^<>]*>", "", n or "")


def check(ctx):
    n = {"external": 0, "opens": 0}
    for crate in ("oxyroot", "oxyroot_ls", "oxyroot_dump", "witness"):
        F = ctx.facts(crate)
        lib = crate == "oxyroot"
        makers, opens = [], []
        for b in F.bodies.values():
            for i, t, nm, decl in scan.calls(b):
                if nm is None:
                    continue
                kr = t["f"].get("krate")
                if t["f"].get("id") in F.bodies:
                    continue
                n["external"] += 1
                x, d = plain(nm), plain(decl)
                w = "%s:%s" % (b.where(), line_of(b, i))
                if kr and kr not in KNOWN and crate != "witness" and kr not in ("oxyroot_derive",):
                    ctx.open("%s calls %s of the crate %s, whose effects are not known" % (b.name, x, kr))
                if OTHER.search(x) or OTHER.search(d):
                    ctx.bad("no-other-effect", b.name, w, "calls %s" % x)
                elif MAKE.search(x):
                    if x.startswith("std::fs::OpenOptions::") and not x.endswith("::open") and const_false(b, t["a"][1]):
                        continue
                    if x.endswith("OpenOptions::open"):
                        opens.append((b, i, t, x, w))
                        continue
                    makers.append((b, i, t, x, w))
                    if x in OPENS:
                        opens.append((b, i, t, x, w))
                elif FS.search(x):
                    if x in OPENS:
                        opens.append((b, i, t, x, w))
                    if not LOOK.search(x):
                        ctx.open("%s: effect of %s not known" % (b.name, x))
            # functions handed around as values
            for ti, w in fn_values(b):
                t = F.types[ti] or {}
                m = FS.match(plain(norm((t.get("inst") or {}).get("def") or t.get("name") or ""))) and \
                    re.match(".*", plain(norm((t.get("inst") or {}).get("def") or t.get("name"))))
                if not m:
                    continue
                if OTHER.search(m.group(0)):
                    ctx.bad("no-other-effect", b.name, w, "uses %s as a value" % m.group(0))
                elif MAKE.search(m.group(0)) or m.group(0) in OPENS:
                    ctx.open("%s: %s used as a value" % (b.name, m.group(0)))
        ctx.ok("no-other-effect", crate)
        if not lib:
            for b, i, t, x, w in makers:
                if crate == "witness" and (b.name.startswith("witness") or norm(b.defn).startswith("witness")):
                    continue
                if crate == "witness":
                    continue   # the library's own bodies are judged in the library
                ctx.bad("programs-only-read", b.name, w, "%s contains %s" % (crate, x))
            if crate != "witness":
                ctx.ok("programs-only-read", crate)
                ctx.floor("files opened by %s" % crate, len(opens), 1)
            continue
        g = name_graph(F)
        rev = {}
        for a, bs in g.items():
            for c in bs:
                rev.setdefault(c, set()).add(a)
        top = [x for x in g if x == CREATE]
        ctx.floor("RootFile::create", len(top), 1)
        inside = scan.reachable(g, top)
        for b, i, t, x, w in makers:
            up = up_to(rev, fn(b), set(top))
            out = [a for a in up if a not in inside]
            ctx.ob("only-create-makes-files", b.name, w, not out,
                   "%s is reached without RootFile::create, from %s" % (x, sorted(out)[:4]))
        ctx.floor("calls that make a file", len(makers), 1)
        # what is made starts empty
        for b in {m[0].id: m[0] for m in makers}.values():
            mine = [m for m in makers if m[0].id == b.id]
            if any(m[3].startswith("std::fs::OpenOptions::") for m in mine):
                ok = any(re.search("::(truncate|create_new)$", m[3]) for m in mine)
                app = any(m[3].endswith("::append") for m in mine)
                ctx.ob("created-file-is-empty", b.name, mine[0][4], ok and not app, "opened for writing without truncating it")
            else:
                ctx.ok("created-file-is-empty", b.name, mine[0][4])
        for b, i, t, x, w in opens:
            n["opens"] += 1
            o = Origins(F)
            res = o.operand(b, t["a"][OPENS[x]], 0)
            odd = [r for r in res if r not in (("path", OPEN), ("path", CREATE), ("default",))]
            makes = bool(MAKE.search(x)) and (x != "std::fs::OpenOptions::open" or any(m[0].id == b.id for m in makers))
            want = CREATE if makes else OPEN
            if any(r[0] == "unknown" for r in odd):
                ctx.open("%s: origin of the path not decided: %s" % (b.name, odd[:3]))
                continue
            ctx.ob("opens-the-given-path", b.name, w, not odd and ("path", want) in res and
                   not (makes and ("path", OPEN) in res),
                   "the path given to %s comes from %s" % (x, [r[1:] for r in (odd or res)][:4]))
    ctx.cover["external calls"] = n["external"]
    ctx.floor("external calls", n["external"], 3000)
    ctx.floor("files opened", n["opens"], 3)


def fn(b):
    return scan.root_fn(plain(norm(b.defn)))


def name_graph(F):
    """calls between functions of the crate by name, closures counted as part of the function they are written in; a call
    that is not resolved goes to every method of that name"""
    g, methods = {}, {}
    for b in F.bodies.values():
        g.setdefault(fn(b), set())
        methods.setdefault(fn(b).split("::")[-1], set()).add(fn(b))
    for b in F.bodies.values():
        for i, t, nm, decl in scan.calls(b):
            if nm is None:
                continue
            x = scan.root_fn(plain(nm))
            if x in g:
                g[fn(b)].add(x)
            elif t["f"].get("kind") != "item":
                d = plain(decl)
                if d.split("::")[0] == "oxyroot":
                    g[fn(b)] |= methods.get(d.split("::")[-1], set())
        for ti, w in fn_values(b):
            t = b.facts.types[ti]
            x = plain(norm((t.get("inst") or {}).get("def") or t.get("name") or ""))
            if x in g:
                g[fn(b)].add(x)
    return g


def line_of(b, i):
    for s in b.blocks[i]["s"][::-1]:
        if len(s) > 3 and isinstance(s[3], int):
            return s[3]
    return 0


def const_false(b, a):
    c = a.get("c") if isinstance(a, dict) else None
    v = (c or {}).get("v")
    return isinstance(v, dict) and v.get("int") == 0


def fn_values(b):
    """type indices of the function items used as values in a body"""
    out = []

    def op(o, w):
        if isinstance(o, dict) and "c" in o:
            t = b.facts.types[o["c"]["ty"]]
            if t and t.get("k") == "fndef":
                out.append((o["c"]["ty"], w))
        elif isinstance(o, list):
            for y in o:
                op(y, w)
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=":
                op(s[2][1:], b.where())
        if bl["t"]["k"] == "call":
            op(bl["t"]["a"], b.where())
            f = bl["t"]["f"]
            for ti in f.get("args") or ():
                t = b.facts.types[ti] if isinstance(ti, int) else None
                if t and t.get("k") == "fndef":
                    out.append((ti, b.where()))
    return out


def up_to(rev, x, stop):
    """everything from which x is reached without going through stop"""
    seen, work = {x}, [x]
    while work:
        y = work.pop()
        for a in rev.get(y, ()):
            if a not in seen and a not in stop:
                seen.add(a)
                work.append(a)
    return seen


class Origins:
    """where the value of an operand may come from, over all assignments (no order) and callers"""

    def __init__(self, F):
        self.F = F
        self.seen = set()

    def operand(self, b, o, depth):
        if "c" in o:
            v = o["c"].get("v")
            return {("constant", str(v)[:60])}
        return self.place(b, o.get("mv") or o.get("cp"), depth)

    def place(self, b, p, depth):
        if depth > 40:
            return {("unknown", "depth")}
        fs = [(o, f) for o, f in scan.place_fields(b, p)]
        own = [x for x in fs if x[0] and x[0].split("::")[0] == "oxyroot"]
        if own:
            return self.field(own[-1], depth)
        k = (b.id, p[0])
        if k in self.seen:
            return set()
        self.seen.add(k)
        l = p[0]
        out, defs = set(), 0
        if 1 <= l <= b.argc:
            out |= self.param(b, l, depth)
        for i, bl in enumerate(b.blocks):
            for s in bl["s"]:
                if s[0] == "=" and s[1][0] == l:
                    defs += 1
                    out |= self.rvalue(b, s[2], depth)
            t = bl["t"]
            if t["k"] == "call" and t["d"][0] == l:
                defs += 1
                f = t["f"]
                nm = plain(norm(f.get("decl") or f.get("def") or "?"))
                own = self.named(f)
                if own:
                    for cb in own:
                        out |= self.place(cb, [0], depth + 1) if cb.argc == 0 else self.returned(cb, b, t, depth)
                elif SAME.search(nm) and t["a"]:
                    out |= self.operand(b, t["a"][0], depth + 1)
                elif nm.endswith("Default::default") or nm.endswith("PathBuf::new"):
                    out.add(("default",))
                else:
                    out.add(("call", nm))
        if not defs and not (1 <= l <= b.argc):
            out.add(("unknown", "%s _%d" % (b.name, l)))
        return out

    def returned(self, cb, b, t, depth):
        """result of a call of a known function: its parameters are replaced by the arguments of this call"""
        sub = Origins(self.F)
        sub.fixed = (cb.id, [self.operand(b, a, depth + 1) for a in t["a"]])
        return sub.place(cb, [0], depth + 1)

    fixed = None

    def named(self, f):
        if f.get("id") in self.F.bodies:
            return [self.F.bodies[f["id"]]]
        x = plain(norm(f.get("def") or ""))
        if x.split("::")[0] != "oxyroot":
            return []
        return [b for b in self.F.bodies.values() if plain(norm(b.defn)) == x]

    def rvalue(self, b, r, depth):
        k = r[0]
        if k == "use":
            return self.operand(b, r[1], depth + 1)
        if k == "ref":
            return self.place(b, r[2], depth + 1)
        if k == "cast":
            o = [x for x in r[1:] if isinstance(x, dict) and ("mv" in x or "cp" in x)]
            return self.operand(b, o[0], depth + 1) if o else {("unknown", "cast")}
        if k == "discr":
            return set()
        if k == "agg":
            ops = [x for x in r if isinstance(x, list)]
            out = set()
            for o in (ops[-1] if ops else []):
                if isinstance(o, dict):
                    out |= self.operand(b, o, depth + 1)
            return out
        for x in r[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int):
                return self.place(b, x, depth + 1)
        return {("unknown", k)}

    def param(self, b, l, depth):
        nm = plain(norm(b.defn))
        if nm in (CREATE, OPEN):
            return {("path", nm)}
        if self.fixed and self.fixed[0] == b.id:
            return self.fixed[1][l - 1] if l - 1 < len(self.fixed[1]) else {("unknown", "arg")}
        out, found = set(), False
        for c in self.F.bodies.values():
            for i, t, x, d in scan.calls(c):
                if x and plain(x) == plain(norm(b.defn)) and l - 1 < len(t["a"]):
                    found = True
                    out |= self.operand(c, t["a"][l - 1], depth + 1)
        if not found:
            return {("parameter of", nm)} if "{closure" not in nm else {("unknown", nm)}
        return out

    def field(self, of, depth):
        k = ("field",) + of
        if k in self.seen:
            return set()
        self.seen.add(k)
        out = set()
        for c in self.F.bodies.values():
            for bl in c.blocks:
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    if s[2][0] == "agg" and s[2][1] == "adt":
                        t = self.F.types[s[2][2]]
                        if t and norm(t["name"]) == of[0]:
                            i = field_index(self.F, t, of[1], s[2][4] if len(s[2]) > 4 else 0)
                            if i is None or i >= len(s[2][3]):
                                out.add(("unknown", "construction of %s" % of[0]))
                            else:
                                out |= self.operand(c, s[2][3][i], depth + 1)
                    fs = scan.place_fields(c, s[1])
                    if fs and fs[-1] == of:
                        out |= self.rvalue(c, s[2], depth)
                t = bl["t"]
                if t["k"] == "call":
                    fs = scan.place_fields(c, t["d"])
                    if fs and fs[-1] == of:
                        out.add(("unknown", "field assigned by a call"))
        return out or {("unknown", "field %s" % (of,))}


def field_index(F, t, name, variant):
    vs = t.get("variants")
    if not vs:
        return None
    v = vs[variant if isinstance(variant, int) and variant < len(vs) else 0]
    fs = v.get("fields") if isinstance(v, dict) else v
    for i, f in enumerate(fs):
        nm = f.get("name") if isinstance(f, dict) else (f[0] if isinstance(f, (list, tuple)) else f)
        if nm == name:
            return i
    return None
