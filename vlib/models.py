"""Abstract models of the standard-library functions the analysed code calls.

Each model maps abstract arguments to (value, state); None means "does not return"; NotImplemented means
"use the generic pure-function model"."""
import re
from absint import (C, S, OPT, RES, CF, UNIT, NONE, some, ok, err, canon_cond, merge_vals, merge_states, State)
from facts import norm

M = {}
P = []   # (regex, model)


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        P.append((re.compile(rx), f))
        return f
    return d


_cache = {}


def lookup(decl, name):
    k = (decl, name)
    if k in _cache:
        return _cache[k]
    r = M.get(decl) or M.get(name)
    if r is None:
        for rx, f in P:
            if rx.search(decl) or rx.search(name):
                r = f
                break
    _cache[k] = r
    return r


def D(I, v, st):
    return I.deref_all(v, st)


def one(I, v, st):
    """dereference exactly one level"""
    v = I.pick(v, st)
    if v[0] == "ref":
        return I.pick(I.load(st, v[1], v[2]), st)
    return v


def dest_ty(I, c):
    if c.fr is None or c.t is None or "d" not in c.t:
        return None
    return I.place_ty(c.fr.body, c.t["d"])


def argty(I, c, i):
    if c.fr is None or c.t is None:
        return None
    return I.optype(c.fr, c.t["a"][i])


def sub_path(ref, var, vname):
    return ("ref", ref[1], ref[2] + (("d", var, vname), ("f", 0, "0", None, None)))


# ------------------------------------------------------------------ conversions that keep the value
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
       "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::vec::Vec::as_slice",
       "std::vec::Vec::as_mut_slice", "std::string::String::as_str", "std::str::<impl str>::as_bytes",
       "std::string::String::as_bytes", "std::string::String::into_bytes", "std::hint::must_use",
       "std::slice::<impl [T]>::as_ref", "std::hint::black_box", "std::borrow::BorrowMut::borrow_mut",
       "std::array::<impl [T; N]>::as_slice", "std::string::String::into_boxed_str",
       "std::vec::Vec::into_boxed_slice", "std::boxed::Box::as_ref", "std::boxed::Box::as_mut",
       "std::convert::identity", "std::slice::<impl [T]>::as_mut_slice")
def m_ident(I, c):
    fixed_len(I, c)
    return c.args[0], c.st


def fixed_len(I, c):
    """a byte view of a fixed-size value has that size"""
    t = argty(I, c, 0)
    n = 0
    while t and t.get("k") in ("ref", "ptr") and n < 4:
        t = I.T(t["ty"])
        n += 1
    size = None
    if t and t.get("k") == "array" and isinstance(t.get("len"), int):
        size = t["len"]
    elif t and t.get("k") == "adt" and norm(t["name"]) == "uuid::Uuid":
        size = 16
    if size is not None:
        x = D(I, c.args[0], c.st)
        if x[0] not in ("arr", "rep", "c", "s", "be"):
            I.lens[x] = size


@model("uuid::Uuid::as_bytes", "uuid::Uuid::into_bytes", "uuid::Uuid::to_bytes_le")
def m_uuidbytes(I, c):
    fixed_len(I, c)
    return c.args[0], c.st


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec",
       "std::option::Option::cloned", "std::option::Option::copied", "std::slice::<impl [T]>::into_vec",
       "std::borrow::Cow::into_owned", "std::str::<impl str>::to_owned", "std::str::<impl str>::into_string")
def m_clone(I, c):
    v = D(I, c.args[0], c.st)
    if v[0] == "adt" and v[1] == OPT and v[2] == 1:
        v = some(D(I, v[3][0], c.st))
    return v, c.st


@model("std::string::ToString::to_string")
def m_tostring(I, c):
    v = D(I, c.args[0], c.st)
    ty = argty(I, c, 0)
    n = 0
    while ty and ty.get("k") in ("ref", "ptr") and n < 5:
        ty = I.T(ty["ty"])
        n += 1
    if ty and (ty.get("k") == "str" or (ty.get("k") == "adt" and norm(ty["name"]) == "std::string::String")):
        return v, c.st
    if v[0] in ("s",):
        return v, c.st
    if v[0] == "c" and isinstance(v[1], int) and ty and ty.get("k") in ("int", "uint"):
        return S(str(v[1])), c.st
    if ty is None:
        return v, c.st
    # Display implementation inside the workspace?
    return ("fmt", "{}", (v,)), c.st


@model("std::convert::Into::into", "std::convert::From::from")
def m_into(I, c):
    v = c.args[0]
    own = (c.f.get("inner") or c.f or {}).get("id")
    if own is not None and own in I.facts.bodies:
        r, st = I.call_body(I.facts.bodies[own], c.args, c.st, c.seq, c.site)
        if r is None:
            return None
        return r, st
    d = dest_ty(I, c)
    if d is not None:
        if d.get("k") == "adt":
            n = norm(d["name"])
            if n in ("std::string::String", "std::vec::Vec", "std::boxed::Box", "std::rc::Rc", "std::path::PathBuf",
                     "std::sync::Arc", "std::borrow::Cow"):
                return (D(I, v, c.st) if v[0] == "ref" else v), c.st
            if n == OPT:
                a = argty(I, c, 0)
                if a and a.get("s") != d.get("s"):
                    return some(v), c.st
                return v, c.st
            a = argty(I, c, 0)
            if a and a.get("s") == d.get("s"):
                return v, c.st
            return ("call", "into:" + norm(d["s"]), (D(I, v, c.st),)), c.st
        if d.get("k") in ("int", "uint", "float"):
            a = argty(I, c, 0)
            if v[0] == "c":
                return v, c.st
            if a and a.get("s") == d["s"]:
                return v, c.st
            return ("cast", d["s"], D(I, v, c.st)), c.st
    return v, c.st


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def m_tryinto(I, c):
    v = D(I, c.args[0], c.st)
    d = dest_ty(I, c)
    if d and d.get("k") == "adt" and d["args"]:
        t = I.T(d["args"][0]) if isinstance(d["args"][0], int) else None
        if t and t.get("k") in ("int", "uint") and v[0] != "c":
            v = ("cast", t["s"], v)
    return ok(v), c.st


@model("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new", "std::cell::RefCell::new",
       "std::cell::Cell::new", "std::mem::ManuallyDrop::new", "std::io::BufWriter::new", "std::io::BufReader::new")
def m_box(I, c):
    return c.args[0], c.st


@model("std::rc::Rc::get_mut", "std::sync::Arc::get_mut")
def m_getmut(I, c):
    return some(c.args[0]), c.st


@model("std::boxed::Box::new_uninit")
def m_newuninit(I, c):
    return ("ref", ("H", ("boxcell", c.site, c.fr.id if c.fr is not None else None)), ()), c.st


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::Box::assume_init")
def m_assumeinit(I, c):
    v = c.args[0]
    return (D(I, v, c.st) if v[0] == "ref" else v), c.st


@model("std::vec::from_elem")
def m_fromelem(I, c):
    n = c.args[1]
    v = D(I, c.args[0], c.st)
    if n[0] == "c" and isinstance(n[1], int) and 0 <= n[1] <= 16:
        return ("arr", (v,) * n[1]), c.st
    return ("repn", v, n), c.st


# ------------------------------------------------------------------ logging / formatting / diagnostics
@pat(r"^log::__private_api::|^log::max_level$|^std::io::_print$|^std::io::_eprint$")
def m_log(I, c):
    return UNIT, c.st


@model("std::fmt::Arguments::new")
def m_args(I, c):
    t = D(I, c.args[0], c.st)
    a = D(I, c.args[1], c.st) if len(c.args) > 1 else ("arr", ())
    items = tuple(D(I, x, c.st) for x in a[1]) if a[0] in ("arr", "tup") else (a,)
    return ("fmt", decode_template(t), items), c.st


def decode_template(t):
    if t[0] == "s":
        return t[1]
    if t[0] == "arr" and all(x[0] == "c" for x in t[1]):
        b = bytes(x[1] & 255 for x in t[1])
        out = []
        i = 0
        try:
            while i < len(b):
                n = b[i]
                i += 1
                if n == 0:
                    break
                if n < 0x80:
                    out.append(b[i:i + n].decode("utf8", "replace"))
                    i += n
                elif n == 0x80:
                    ln = b[i] | b[i + 1] << 8
                    i += 2
                    out.append(b[i:i + ln].decode("utf8", "replace"))
                    i += ln
                else:
                    out.append("{}")
                    if n & 1: i += 4
                    if n & 2: i += 2
                    if n & 4: i += 2
                    if n & 8: i += 2
        except IndexError:
            return repr(b)
        return "".join(out)
    return "?"


@model("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst")
def m_argstr(I, c):
    return D(I, c.args[0], c.st), c.st


@pat(r"^std::fmt::rt::Argument::new_")
def m_arg(I, c):
    return D(I, c.args[0], c.st), c.st


@model("std::fmt::format")
def m_format(I, c):
    v = D(I, c.args[0], c.st)
    if v[0] == "fmt":
        if all(x[0] in ("s", "c") for x in v[2]):
            s = v[1]
            for x in v[2]:
                s = s.replace("{}", str(x[1]), 1)
            return S(s), c.st
        if v[1] == "{}" and len(v[2]) == 1 and v[2][0][0] in ("s",):
            return v[2][0], c.st
    return v, c.st


@pat(r"^std::fmt::(Formatter|Debug|Write|builders)")
def m_fmt(I, c):
    return ok(UNIT), c.st


# ------------------------------------------------------------------ comparison
def cmp_vals(I, c):
    return D(I, c.args[0], c.st), D(I, c.args[1], c.st)


CMP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


def closed(v):
    if v[0] in ("c", "s", "tyid"):
        return True
    if v[0] in ("arr", "tup"):
        return all(closed(x) for x in v[1])
    if v[0] == "adt":
        return all(closed(x) for x in v[3])
    return False


def mixed_cmp(I, c, op):
    """a comparison of two different types is the workspace's own: run it"""
    t = [argty(I, c, i) for i in (0, 1)]
    while all(x and x.get("k") == "ref" for x in t):
        t = [I.T(x["ty"]) for x in t]
    if not (t[0] and t[1]) or t[0]["s"] == t[1]["s"]:
        return None
    own = (c.f.get("inner") or c.f).get("id")
    if own is None or own not in I.facts.bodies:
        return None
    v, st = I.call_body(I.facts.bodies[own], c.args, c.st, c.seq, c.site)
    if v is None:
        return None
    if own == c.f.get("id"):
        return v, st
    sets = {"Eq": (1,), "Ne": (0, 2), "Lt": (0,), "Le": (0, 1), "Gt": (2,), "Ge": (1, 2)}[op]

    def leaf(v):
        if v[0] == "phi":
            arms = tuple((l, leaf(x)) for l, x in v[2])
            if any(x is None for _, x in arms):
                return None
            return arms[0][1] if all(x == arms[0][1] for _, x in arms) else ("phi", v[1], arms)
        if v[0] == "c":                                          # eq answered for ne
            return C(int(bool(v[1]) == (op != "Ne")))
        if v[0] == "adt" and v[1] == OPT and v[2] == 0:
            return C(int(op == "Ne"))
        if v[0] == "adt" and v[1] == OPT and v[3][0][0] == "phi":
            return leaf(("phi", v[3][0][1], tuple((l, some(x)) for l, x in v[3][0][2])))
        if v[0] == "adt" and v[1] == OPT and v[3][0][0] == "adt":
            return C(int(v[3][0][2] in sets))
        return None
    r = leaf(I.pick(v, st))
    return None if r is None else (r, st)


@pat(r"^std::cmp::Partial(Eq|Ord)::(eq|ne|lt|le|gt|ge)$")
def m_cmp(I, c):
    if "log::Level" in c.name:
        return C(0), c.st
    op = CMP[c.decl.rsplit("::", 1)[1]]
    r = mixed_cmp(I, c, op)
    if r is not None:
        return r
    a, b = cmp_vals(I, c)
    if op in ("Eq", "Ne") and closed(a) and closed(b):
        return C(int((a == b) == (op == "Eq"))), c.st
    return I.binop(op, a, b, c.st), c.st


@model("std::cmp::Ord::cmp")
def m_ordcmp(I, c):
    a, b = cmp_vals(I, c)
    lt, eq = canon_cond(I.binop("Lt", a, b, c.st), True), canon_cond(I.binop("Eq", a, b, c.st), True)
    o = [("adt", "std::cmp::Ordering", i, ()) for i in range(3)]
    if lt[0][0] == "c" and eq[0][0] == "c":
        return o[0 if bool(lt[0][1]) == lt[1] else 1 if bool(eq[0][1]) == eq[1] else 2], c.st
    return ("phi", lt[0], ((lt[1], o[0]), (not lt[1], ("phi", eq[0], ((eq[1], o[1]), (not eq[1], o[2])))))), c.st


def choose_lt(a, b, x, y):
    """x when a < b, else y"""
    from absint import canon_cond
    k, pol = canon_cond(("bin", "Lt", a, b), True)
    if k[0] == "c":
        return x if bool(k[1]) == pol else y
    return ("phi", k, ((False, y if pol else x), (True, x if pol else y)))


@model("std::cmp::min", "std::cmp::Ord::min")
def m_min(I, c):
    a, b = c.args[0], c.args[1]
    if a[0] == "c" and b[0] == "c":
        return C(min(a[1], b[1])), c.st
    return choose_lt(a, b, a, b), c.st


@model("std::cmp::max", "std::cmp::Ord::max")
def m_max(I, c):
    a, b = c.args[0], c.args[1]
    if a[0] == "c" and b[0] == "c":
        return C(max(a[1], b[1])), c.st
    return choose_lt(a, b, b, a), c.st


@pat(r"^std::num::<impl i[0-9a-z]+>::(unsigned_)?abs$")
def m_abs(I, c):
    x = D(I, c.args[0], c.st)
    if x[0] == "c":
        return C(abs(x[1])), c.st
    return choose_lt(x, C(0), ("un", "Neg", x), x), c.st


@model("std::any::TypeId::of")
def m_tyid(I, c):
    a = c.f.get("args") or []
    if a and isinstance(a[0], int):
        return ("tyid", norm(I.T(a[0])["s"])), c.st
    return NotImplemented


@model("std::any::type_name")
def m_tyname(I, c):
    a = c.f.get("args") or []
    if a and isinstance(a[0], int):
        return S(norm(I.T(a[0])["s"])), c.st
    return NotImplemented


PRIM_SIZE = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8,
             "f64": 8, "usize": 8, "isize": 8, "char": 4, "u128": 16, "i128": 16}


def ty_size(I, t):
    if t is None:
        return None
    if t.get("s") in PRIM_SIZE:
        return PRIM_SIZE[t["s"]]
    if t.get("k") == "array":
        n = ty_size(I, I.T(t["ty"]))
        if n is not None and isinstance(t.get("len"), int):
            return n * t["len"]
    return None


@model("std::mem::size_of", "std::mem::size_of_val", "std::mem::align_of")
def m_size(I, c):
    a = c.f.get("args") or []
    if a and isinstance(a[0], int):
        n = ty_size(I, I.T(a[0]))
        if n is not None:
            return C(n), c.st
        return ("sizeof", norm(I.T(a[0])["s"])), c.st
    return NotImplemented


# ------------------------------------------------------------------ Try
@model("std::ops::Try::branch")
def m_branch(I, c):
    v = I.pick(c.args[0], c.st)
    I.tryp.append((c.site, v))
    if I.refusals:
        refuse(v, "err", c.seq, c.site)
    return do_branch(I, v), c.st


def refuse(v, fate, seq, site):
    """the conditions under which a value is an error (or None) as guards"""
    if v[0] != "phi":
        return
    good = [(l, x) for l, x in v[2] if not bad(x)]
    if not good:
        return
    for l, x in v[2]:
        if bad(x) and x[0] != "undef":
            seq.append(("guard", v[1], l, fate, (), site))
    if len(good) == 1:
        refuse(good[0][1], fate, seq, site)
        return
    arms = []
    for l, x in good:
        s = []
        refuse(x, fate, s, site)
        arms.append((l, tuple(s), "fall"))
    if any(a[1] for a in arms):
        seq.append(("alt", v[1], tuple(arms), site))


def do_branch(I, v):
    if v[0] == "optref":
        return ("adt", CF, 0, (v[2],))
    if v[0] == "adt" and v[1] == RES:
        return ("adt", CF, 0, v[3]) if v[2] == 0 else ("adt", CF, 1, (v,))
    if v[0] == "adt" and v[1] == OPT:
        return ("adt", CF, 0, v[3]) if v[2] == 1 else ("adt", CF, 1, (v,))
    if v[0] == "phi":
        good = [(l, x) for l, x in v[2] if not bad(x)]
        if len(good) == 1:
            return ("adt", CF, 0, (payload(good[0][1]),))
        if good:
            return ("adt", CF, 0, (merge_vals(v[1], [(l, payload(x)) for l, x in good]),))
        return ("adt", CF, 1, (v,))
    return ("adt", CF, 0, (("pl", v),))


def bad(x):
    if x[0] == "adt" and x[1] == RES and x[2] == 1:
        return True
    if x[0] == "adt" and x[1] == OPT and x[2] == 0:
        return True
    if x[0] == "phi":
        return all(bad(y) for _, y in x[2])
    return x[0] == "undef"


def payload(v):
    if v[0] == "optref":
        return v[2]
    if v[0] == "adt" and v[1] in (RES, OPT) and v[3]:
        return v[3][0]
    if v[0] == "phi":
        good = [(l, x) for l, x in v[2] if not bad(x)]
        if not good:
            return ("undef",)
        return merge_vals(v[1], [(l, payload(x)) for l, x in good])
    return ("pl", v)


@model("std::ops::FromResidual::from_residual")
def m_resid(I, c):
    d = dest_ty(I, c)
    if d and d.get("k") == "adt" and norm(d["name"]) == OPT:
        return NONE, c.st
    v = c.args[0]
    if v[0] == "adt" and v[1] == RES:
        return err(v[3][0] if v[3] else ("top", "e")), c.st
    return err(("top", "residual")), c.st


@model("std::ops::Try::from_output")
def m_fromout(I, c):
    d = dest_ty(I, c)
    if d and d.get("k") == "adt" and norm(d["name"]) == OPT:
        return some(c.args[0]), c.st
    return ok(c.args[0]), c.st


# ------------------------------------------------------------------ Option / Result
def variant_of(v, good):
    """True/False/None: is v the good variant (Some/Ok)?"""
    if v[0] == "adt" and v[1] == OPT:
        return v[2] == 1
    if v[0] == "adt" and v[1] == RES:
        return v[2] == 0
    return None


@pat(r"^std::(option::Option|result::Result)::(unwrap|expect|unwrap_unchecked)$")
def m_unwrap(I, c):
    v = I.pick(c.args[0], c.st)
    g = variant_of(v, True)
    if g is False:
        return None
    if v[0] == "phi" and bad(v):
        return None
    I.unwraps.append((c.site, v, c.decl)) if hasattr(I, "unwraps") else None
    if I.refusals:
        refuse(v, "dead", c.seq, c.site)
    return payload(v), c.st


def truth(I, v, st, want_good):
    g = variant_of(v, True)
    if g is not None:
        return C(int(g == want_good))
    if v[0] == "phi":
        lv = [(l, truth(I, x, st, want_good)) for l, x in v[2]]
        if all(x[1][0] == "c" for x in lv):
            return merge_vals(v[1], lv)
    d = ("discr", strip_conv(v))
    return ("bin", "Eq", d, C(1 if want_good else 0))


def strip_conv(v):
    while v[0] in ("conv", "optref"):
        v = v[2] if v[0] == "conv" else v[1]
    return v


@pat(r"^std::option::Option::is_(some|none)$")
def m_issome(I, c):
    v = D(I, c.args[0], c.st)
    return truth(I, v, c.st, c.decl.endswith("some")), c.st


@pat(r"^std::result::Result::is_(ok|err)$")
def m_isok(I, c):
    v = D(I, c.args[0], c.st)
    g = variant_of(v, True)
    good = c.decl.endswith("ok")
    if g is not None:
        return C(int(g == good)), c.st
    d = ("discr", strip_conv(v))
    return ("bin", "Eq", d, C(0 if good else 1)), c.st


@pat(r"^std::(option::Option|result::Result)::(as_ref|as_mut|as_deref|as_deref_mut|as_slice)$")
def m_asref(I, c):
    a = c.args[0]
    n = 0
    while a[0] == "ref" and n < 6:
        nx = I.pick(I.load(c.st, a[1], a[2]), c.st)
        if nx[0] != "ref":
            break
        a = nx
        n += 1
    v = D(I, a, c.st)
    if v[0] == "adt" and v[1] in (OPT, RES):
        if not v[3]:
            return v, c.st
        if a[0] == "ref":
            r = sub_path(a, v[2], ("Some" if v[1] == OPT else "Ok"))
            return ("adt", v[1], v[2], (r,)), c.st
        return v, c.st
    if a[0] == "ref" and v[0] != "phi":
        # keep the place so that writes through the payload are seen
        return ("optref", v, sub_path(a, 1, "Some")), c.st
    return ("conv", "as_ref", v), c.st


@pat(r"^std::(option::Option)::(ok_or|ok_or_else)$")
def m_okor(I, c):
    v = I.pick(c.args[0], c.st)
    g = variant_of(v, True)
    if g is True:
        return ok(v[3][0]), c.st
    if g is False:
        return err(("top", "e")), c.st
    if v[0] == "phi":
        good = [x for x in v[2] if not bad(x[1])]
        if not good:
            return err(("top", "e")), c.st
        if I.refusals:
            refuse(v, "err", c.seq, c.site)
        return ok(payload(v)), c.st
    return ("conv", "ok_or", v), c.st


@pat(r"^std::(result::Result)::(map_err|or_else|inspect_err)$")
def m_maperr(I, c):
    return c.args[0], c.st


@pat(r"^std::result::Result::ok$")
def m_resok(I, c):
    v = I.pick(c.args[0], c.st)
    g = variant_of(v, True)
    if g is True:
        return some(v[3][0]), c.st
    if g is False:
        return NONE, c.st
    return ("conv", "ok", v), c.st


@pat(r"^std::(option::Option|result::Result)::(map|and_then|inspect)$")
def m_map(I, c):
    v = I.pick(c.args[0], c.st)
    which = OPT if "option" in c.decl else RES
    mk = (lambda x: x) if c.decl.endswith("and_then") else (some if which == OPT else ok)
    g = variant_of(v, True)
    if g is False:
        return v, c.st
    if g is True:
        r = I.call_value(c.args[1], [v[3][0]], c.st, c.seq, c.site)
        return None if r is None else (mk(r[0]), r[1])
    if v[0] == "phi":
        good = [(l, x) for l, x in v[2] if not bad(x)]
        if not good:
            return v, c.st
        s2 = []
        stc = c.st.copy()
        r = I.call_value(c.args[1], [payload(v)], stc, s2, c.site)
        if r is None:
            return v, c.st
        badl = [(l, x) for l, x in v[2] if bad(x)]
        gl = good[0][0] if len(good) == 1 else ("in", tuple(l for l, _ in good))
        if s2:
            c.seq.append(("alt", v[1], ((gl, tuple(s2), "fall"),) + tuple((l, (), "fall") for l, _ in badl), c.site))
        stm = merge_states(v[1], [(gl, r[1])] + [(l, c.st) for l, _ in badl])
        return merge_vals(v[1], [(gl, mk(r[0]))] + badl), stm
    key = ("discr", strip_conv(v))
    good, badv = (1, 0) if which == OPT else (0, 1)
    s2 = []
    r = I.call_value(c.args[1], [payload(v)], c.st.copy(), s2, c.site)
    if r is None:
        return (NONE if which == OPT else err(("top", "e"))), c.st
    if s2:
        c.seq.append(("alt", key, ((good, tuple(s2), "fall"), (badv, (), "fall")), c.site))
    stm = merge_states(key, [(good, r[1]), (badv, c.st)])
    return ("phi", key, ((good, mk(r[0])), (badv, NONE if which == OPT else err(("top", "e"))))), stm


@pat(r"^std::option::Option::filter$")
def m_optfilter(I, c):
    v = I.pick(c.args[0], c.st)
    g = variant_of(v, True)
    if g is False or (v[0] == "phi" and bad(v)):
        return v, c.st
    r = I.call_value(c.args[1], [payload(v)], c.st.copy(), c.seq, c.site)
    if r is None:
        return NONE, c.st
    cond, pol = canon_cond(r[0], True)
    if cond[0] == "c":
        keep = bool(cond[1]) == pol
        return (v if keep else NONE), c.st
    inner = ("phi", cond, ((pol, some(payload(v))), (not pol, NONE)))
    if g is True:
        return inner, c.st
    if v[0] == "phi":
        return merge_vals(v[1], [(l, NONE if bad(x) else inner) for l, x in v[2]]), c.st
    key = ("discr", strip_conv(v))
    return ("phi", key, ((1, inner), (0, NONE))), c.st


@pat(r"^std::num::<impl [iu][0-9a-z]+>::checked_(add|sub|mul)$")
def m_checked(I, c):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.decl.rsplit("_", 1)[1]]
    a, b = D(I, c.args[0], c.st), D(I, c.args[1], c.st)
    v = I.binop(op, a, b, c.st)
    if v[0] == "c":
        return some(v), c.st
    return ("phi", ("checked", op, a, b), ((1, some(v)), (0, NONE))), c.st


@pat(r"^std::num::<impl [iu][0-9a-z]+>::(saturating|wrapping)_(add|sub|mul)$")
def m_saturating(I, c):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.decl.rsplit("_", 1)[1]]
    return I.binop(op, D(I, c.args[0], c.st), D(I, c.args[1], c.st), c.st), c.st


@pat(r"^std::(option::Option|result::Result)::(unwrap_or|unwrap_or_default|unwrap_or_else)$")
def m_unwrapor(I, c):
    v = I.pick(c.args[0], c.st)
    g = variant_of(v, True)
    if g is True:
        return v[3][0], c.st
    alt = ("default", "")
    st = c.st
    if len(c.args) > 1:
        alt = c.args[1]
        if c.decl.endswith("_else"):
            r = I.call_value(c.args[1], [] if "option" in c.decl else [("top", "e")], st, c.seq, c.site)
            if r is None:
                return payload(v), c.st
            alt, st = r
    if g is False:
        return alt, st
    key = v[1] if v[0] == "phi" else ("discr", strip_conv(v))
    if v[0] == "phi":
        return merge_vals(v[1], [(l, (alt if bad(x) else payload(x))) for l, x in v[2]]), st
    gl = 1 if "option" in c.decl else 0
    return ("phi", key, ((gl, ("pl", v)), (1 - gl, alt))), st


@model("std::option::Option::take", "std::mem::take")
def m_take(I, c):
    a = c.args[0]
    v = D(I, a, c.st)
    st = c.st
    if a[0] == "ref":
        st = st.copy()
        new = NONE
        if c.decl == "std::mem::take":
            new = default_of(I, (c.f.get("args") or [None])[0])
        I.store_to(st, a[1], a[2], new, c.site)
    return v, st


@model("std::mem::replace", "std::option::Option::replace", "std::option::Option::insert")
def m_replace(I, c):
    a = c.args[0]
    v = D(I, a, c.st)
    st = c.st
    if a[0] == "ref":
        st = st.copy()
        new = c.args[1] if "mem" in c.decl else some(c.args[1])
        I.store_to(st, a[1], a[2], new, c.site)
    return v, st


@model("std::mem::drop", "std::mem::forget")
def m_drop(I, c):
    return UNIT, c.st


# ------------------------------------------------------------------ default values
def default_of(I, ti):
    t = I.T(ti) if isinstance(ti, int) else None
    if t is None:
        return ("default", "?")
    k = t.get("k")
    if k in ("int", "uint", "bool", "char"):
        return C(0)
    if k == "float":
        return C(0.0)
    if k == "adt":
        n = norm(t["name"])
        if n == "std::string::String":
            return S("")
        if n == "std::vec::Vec":
            return ("arr", ())
        if n == OPT:
            return NONE
        if n in ("std::boxed::Box", "std::rc::Rc") and t["args"]:
            return default_of(I, t["args"][0])
    if k == "tuple":
        return ("tup", tuple(default_of(I, x) for x in t.get("args", [])))
    if k == "array" and isinstance(t.get("len"), int) and t["len"] <= 64:
        return ("arr", (default_of(I, t["ty"]),) * t["len"])
    if k == "ref":
        it = I.T(t["ty"])
        if it and it.get("k") == "str":
            return S("")
    return ("default", norm(t["s"]))


@model("std::default::Default::default")
def m_default(I, c):
    a = c.f.get("args") or c.f.get("dargs") or []
    d = c.f.get("dargs") or []
    for src in (d, a):
        if src and isinstance(src[0], int):
            v = default_of(I, src[0])
            if v != ("default", "?"):
                return v, c.st
    ty = dest_ty(I, c)
    if ty is not None:
        for i, t in enumerate(I.facts.types):
            if t is ty:
                return default_of(I, i), c.st
    return NotImplemented


# ------------------------------------------------------------------ Vec / slices / strings
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def m_vecnew(I, c):
    return ("arr", ()), c.st


@model("std::string::String::new", "std::string::String::with_capacity")
def m_strnew(I, c):
    return S(""), c.st


@pat(r"^std::(vec::Vec|slice::<impl \[T\]>|str::<impl str>|string::String|collections::HashMap|iter::ExactSizeIterator)::len$")
def m_len(I, c):
    v = D(I, c.args[0], c.st)
    return vlen(I, v, c.st), c.st


def vlen(I, v, st):
    if v[0] == "push":
        return I.binop("Add", vlen(I, v[1], st), C(1))
    if v[0] == "ext":
        return I.binop("Add", vlen(I, v[1], st), vlen(I, v[2], st))
    if v[0] == "repn":
        return v[2]
    if v[0] == "be":
        return C(v[1])
    if v[0] == "coll":
        return iter_len(I, v[2], st)
    if v[0] == "iter":
        return iter_len(I, v, st)
    if v[0] == "phi":
        lv = [(l, vlen(I, x, st)) for l, x in v[2]]
        return merge_vals(v[1], lv)
    return I.length(v, st)


def iter_len(I, it, st):
    k = it[1]
    if k in ("map", "enum", "rev", "cloned"):
        return iter_len(I, it[2], st)
    if k == "src":
        return it[3] if len(it) > 3 else vlen(I, D(I, it[2], st), st)
    if k == "range":
        return I.binop("Sub", it[3], it[2])
    return ("len", it)


@pat(r"^std::(vec::Vec|slice::<impl \[T\]>|str::<impl str>|string::String)::is_empty$")
def m_isempty(I, c):
    v = D(I, c.args[0], c.st)
    return I.binop("Eq", vlen(I, v, c.st), C(0), c.st), c.st


def setref(I, c, new):
    a = c.args[0]
    st = c.st.copy()
    n = 0
    while a[0] == "ref" and n < 5:
        nx = I.pick(I.load(st, a[1], a[2]), st)
        if nx[0] != "ref":
            break
        a = nx
        n += 1
    if a[0] == "ref":
        I.store_to(st, a[1], a[2], new, c.site)
    else:
        I.store_to(st, ("H", a), (), new, c.site)
    return st


@model("std::vec::Vec::push")
def m_push(I, c):
    v = D(I, c.args[0], c.st)
    x = c.args[1]
    if v[0] == "arr" and len(v[1]) < 40:
        new = ("arr", v[1] + (x,))
    else:
        new = ("push", v, x)
    return UNIT, setref(I, c, new)


@model("std::vec::Vec::extend_from_slice", "std::vec::Vec::append", "std::iter::Extend::extend",
       "std::string::String::push_str", "std::string::String::push")
def m_extend(I, c):
    v = D(I, c.args[0], c.st)
    x = D(I, c.args[1], c.st)
    if v[0] == "arr" and x[0] == "arr":
        new = ("arr", v[1] + x[1])
    elif v == ("arr", ()) or v == S(""):
        new = x
    elif v[0] == "s" and x[0] == "s":
        new = S(v[1] + x[1])
    else:
        new = ("ext", v, x)
    return UNIT, setref(I, c, new)


@model("std::vec::Vec::clear", "std::string::String::clear", "std::collections::HashMap::clear")
def m_clear(I, c):
    return UNIT, setref(I, c, S("") if "String" in c.decl else ("arr", ()))


@model("std::vec::Vec::resize")
def m_resize(I, c):
    v = D(I, c.args[0], c.st)
    if v == ("arr", ()):
        n = c.args[1]
        return UNIT, setref(I, c, ("repn", c.args[2], n))
    return UNIT, setref(I, c, ("resized", v, c.args[1], c.args[2]))


@model("std::vec::Vec::truncate")
def m_trunc(I, c):
    v = D(I, c.args[0], c.st)
    return UNIT, setref(I, c, ("trunc", v, c.args[1]))


@model("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::string::String::reserve",
       "std::vec::Vec::reserve_exact")
def m_reserve(I, c):
    return UNIT, c.st


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut", "std::slice::<impl [T]>::get_unchecked")
def m_index(I, c):
    a = c.args[0]
    i = D(I, c.args[1], c.st)
    n = 0
    while a[0] == "ref" and n < 6:
        nx = I.pick(I.load(c.st, a[1], a[2]), c.st)
        if nx[0] != "ref":
            break
        a = nx
        n += 1
    if i[0] == "adt" and "::ops::" in i[1] or i[0] == "adt" and "range" in i[1].lower():
        v = D(I, a, c.st)
        if i[1].endswith("RangeFull"):
            return a, c.st
        if a[0] == "ref" and c.decl.endswith("index_mut"):
            return ("ref", a[1], a[2] + (("ss", i[1].rsplit("::", 1)[1], i[3]),)), c.st
        return ("subslice", v, i[1].rsplit("::", 1)[1], i[3]), c.st
    if a[0] == "ref":
        return ("ref", a[1], a[2] + (("ci", i),)), c.st
    return I.walk(a, ("ci", i), c.st), c.st


@pat(r"^std::slice::<impl \[T\]>::(get|get_mut|first|last|first_mut|last_mut)$|^std::str::<impl str>::get$")
def m_get(I, c):
    a = c.args[0]
    w = c.decl.rsplit("::", 1)[1]
    idx = c.args[1] if len(c.args) > 1 else ("fromend", 1) if "last" in w else C(0)
    n = 0
    while a[0] == "ref" and n < 6:
        nx = I.pick(I.load(c.st, a[1], a[2]), c.st)
        if nx[0] != "ref":
            break
        a = nx
        n += 1
    v = D(I, a, c.st)
    if idx[0] == "adt":
        e = ("subslice", v, idx[1].rsplit("::", 1)[1], idx[3])
        key = ("inbounds", v, idx)
    else:
        e = ("ref", a[1], a[2] + (("ci", idx),)) if a[0] == "ref" else ("elem", v, idx)
        key = ("inbounds", v, idx)
    if v[0] == "arr" and idx[0] == "c":
        return (some(e) if idx[1] < len(v[1]) else NONE), c.st
    return ("phi", key, ((1, some(e)), (0, NONE))), c.st


@model("std::slice::<impl [T]>::copy_from_slice", "std::slice::<impl [T]>::clone_from_slice")
def m_copyfrom(I, c):
    v = D(I, c.args[1], c.st)
    return UNIT, setref(I, c, v)


@pat(r"::to_(be|le|ne)_bytes$")
def m_tobytes(I, c):
    ty = argty(I, c, 0)
    n = ty_size(I, ty)
    end = re.search(r"to_(..)_bytes", c.decl).group(1)
    return (end, n, D(I, c.args[0], c.st), (ty or {}).get("s")), c.st


@pat(r"::from_(be|le|ne)_bytes$")
def m_frombytes(I, c):
    end = re.search(r"from_(..)_bytes", c.decl).group(1)
    ty = dest_ty(I, c)
    v = D(I, c.args[0], c.st)
    if v[0] == end and v[3] == (ty or {}).get("s"):
        return v[2], c.st
    return ("from_" + end, ty_size(I, ty), v, (ty or {}).get("s")), c.st


# ------------------------------------------------------------------ iterators
def is_iter(v):
    return v[0] == "iter"


def mkiter(I, a, st):
    """iterator over argument a (value or reference)"""
    v = I.pick(a, st)
    n = 0
    if v[0] == "dyn" and v[2] and v[2][0].startswith("std::iter::"):
        return mkiter(I, v[3], st)
    while v[0] == "ref" and n < 6:
        x = I.pick(I.load(st, v[1], v[2]), st)
        if x[0] == "iter":
            return x
        if x[0] == "dyn" and x[2] and x[2][0].startswith("std::iter::"):
            return mkiter(I, x[3], st)
        if x[0] != "ref":
            return ("iter", "src", v, vlen(I, x, st))
        v = x
        n += 1
    if v[0] == "iter":
        return v
    if v[0] == "adt" and v[1].endswith("ops::Range"):
        return ("iter", "range", v[3][0], v[3][1])
    if v[0] == "adt" and v[1].endswith("ops::RangeInclusive"):
        return ("iter", "range", v[3][0], I.binop("Add", v[3][1], C(1)))
    if v[0] == "call" and v[1] == "std::ops::RangeInclusive::new":
        return ("iter", "range", v[2][0], I.binop("Add", v[2][1], C(1)))
    if v[0] == "adt" and v[1] == OPT:
        return ("iter", "src", ("arr", v[3]))
    return ("iter", "src", v, vlen(I, v, st))


IT = ("it",)


def literal_items(I, it, st, limit=6):
    """the elements of an iterator over a literal of a few elements"""
    if it[1] == "src":
        v = it[2]
        x = I.pick(I.load(st, v[1], v[2]), st) if v[0] == "ref" else v
        if x[0] != "arr" or not 1 <= len(x[1]) <= limit:
            return None
        if v[0] == "ref":
            return [("ref", v[1], v[2] + (("ci", C(i)),)) for i in range(len(x[1]))]
        return list(x[1])
    if it[1] == "cloned":
        r = literal_items(I, it[2], st, limit)
        return None if r is None else [D(I, x, st) for x in r]
    if it[1] == "enum":
        r = literal_items(I, it[2], st, limit)
        return None if r is None else [("tup", (C(i), x)) for i, x in enumerate(r)]
    if it[1] == "rev":
        r = literal_items(I, it[2], st, limit)
        return None if r is None else r[::-1]
    return None


def reorders(it):
    """whether an iterator does not hand out its source one for one"""
    if it[1] in ("filter", "filter_map", "chain", "flat_map", "step"):
        return True
    return any(isinstance(x, tuple) and x and x[0] == "iter" and reorders(x) for x in it[2:])


def plus(idx, n):
    return ("bin", "Add", idx, n)


def at_index(v, idx):
    """an element written over the index IT, at another index"""
    if idx == IT or not isinstance(v, tuple):
        return v
    if v == IT:
        return idx
    return tuple(at_index(x, idx) for x in v)


def iter_elem(I, it, st, seq, site, idx=IT):
    """(element value, state) of one iteration step; None when the iterator is known empty"""
    k = it[1]
    if k == "src":
        v = it[2]
        if v[0] == "ref":
            x = D(I, v, st)
            if x == ("arr", ()):
                return None
            if x[0] == "arr" and len(x[1]) == 1:
                return ("ref", v[1], v[2] + (("ci", C(0)),)), st
            if x[0] == "rep":
                return x[1], st
            return ("ref", v[1], v[2] + (("ci", idx),)), st
        if v == ("arr", ()):
            return None
        if v[0] == "arr" and len(v[1]) == 1:
            return v[1][0], st
        if v[0] in ("coll",):
            return at_index(v[1], idx), st
        if v[0] == "repn":
            return v[1], st
        x = I.pushed(v) if v[0] == "lv" else None
        return (("elem", v, idx) if x is None else x), st
    if k == "range":
        if it[2][0] == "c" and it[3][0] == "c" and it[2][1] >= it[3][1]:
            return None
        return at_index(("idxr", it[2], it[3]), idx) if idx == IT else ("idxr", it[2], it[3], idx), st
    if k == "chunks":
        n = it[3]
        lo = I.binop("Mul", idx, n)
        return ("subslice", it[2], "Range", (lo, I.binop("Add", lo, n))), st
    if k == "windows":
        return ("subslice", it[2], "Range", (idx, I.binop("Add", idx, it[3]))), st
    if k == "map":
        r = iter_elem(I, it[2], st, seq, site, idx)
        if r is None:
            return None
        return I.call_value(it[3], [r[0]], r[1], seq, site)
    if k == "flat_map":
        r = iter_elem(I, it[2], st, seq, site, idx)
        if r is None:
            return None
        q = I.call_value(it[3], [r[0]], r[1], seq, site) if it[3] is not None else r
        if q is None:
            return None
        x = q[0]
        if x[0] == "phi":
            return ("elem", x, IT), q[1]
        s2 = []
        e = iter_elem(I, mkiter(I, x, q[1]), q[1], s2, site)
        if s2:
            seq.append(("loop", ("ext", "std::iter::Iterator::flat_map", ("in", site and (site[0].id, site[1])), x), tuple(s2), site))
        return e
    if k == "filter":
        r = iter_elem(I, it[2], st, seq, site, idx)
        if r is None:
            return None
        root = ("C", I.fresh())
        st2 = r[1].copy()
        st2.store[root] = r[0]
        q = I.call_value(it[3], [("ref", root, ())], st2, seq, site)
        if q is not None and I.filters is not None:
            I.filters.append((it, q[0], site))
        return (r[0], q[1] if q else st2)
    if k == "filter_map":
        r = iter_elem(I, it[2], st, seq, site, idx)
        if r is None:
            return None
        q = I.call_value(it[3], [r[0]], r[1], seq, site)
        return None if q is None else (payload(q[0]), q[1])
    if k == "zip":
        a = iter_elem(I, it[2], st, seq, site, ("sel", it[2], idx) if reorders(it[2]) else idx)
        if a is None:
            return None
        b = iter_elem(I, it[3], a[1], seq, site, ("sel", it[3], idx) if reorders(it[3]) else idx)
        if b is None:
            return None
        return ("tup", (a[0], b[0])), b[1]
    if k == "enum":
        a = iter_elem(I, it[2], st, seq, site, ("sel", it[2], idx) if reorders(it[2]) else idx)
        if a is None:
            return None
        n = iter_len(I, it[2], st)
        return ("tup", (("idxr", C(0), n), a[0])), a[1]
    if k == "skip":
        return iter_elem(I, it[2], st, seq, site, plus(idx, it[3]) if not reorders(it[2]) else idx)
    if k == "rev":
        return iter_elem(I, it[2], st, seq, site, ("revd", idx))
    if k == "step":
        return iter_elem(I, it[2], st, seq, site, I.binop("Mul", idx, it[3]))
    if k == "take":
        return iter_elem(I, it[2], st, seq, site, idx)
    if k == "cloned":
        a = iter_elem(I, it[2], st, seq, site, idx)
        return None if a is None else (D(I, a[0], a[1]), a[1])
    if k == "chain":
        a = iter_elem(I, it[2], st, seq, site, idx)
        b = iter_elem(I, it[3], a[1] if a else st, seq, site, ("sel", it[3], idx) if a else idx)
        if a is None:
            return b
        if b is None:
            return a
        return ("phi", ("chain",), ((0, a[0]), (1, b[0]))), b[1]
    return ("elem", it, idx), st


@model("std::iter::IntoIterator::into_iter", "std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut",
       "std::vec::Vec::drain", "std::iter::Iterator::by_ref", "std::iter::Iterator::peekable",
       "std::iter::Iterator::fuse", "std::option::Option::iter")
def m_intoiter(I, c):
    return mkiter(I, c.args[0], c.st), c.st


@model("std::iter::Iterator::map")
def m_itmap(I, c):
    return ("iter", "map", mkiter(I, c.args[0], c.st), c.args[1]), c.st


@model("std::iter::Iterator::filter", "std::iter::Iterator::skip_while", "std::iter::Iterator::take_while",
       "std::iter::Iterator::inspect")
def m_itfilter(I, c):
    w = c.decl.rsplit("::", 1)[1]
    return ("iter", "filter", mkiter(I, c.args[0], c.st), c.args[1]) + ((w,) if w != "filter" else ()), c.st


@model("std::iter::Iterator::filter_map")
def m_itfiltermap(I, c):
    return ("iter", "filter_map", mkiter(I, c.args[0], c.st), c.args[1]), c.st


@model("std::iter::Iterator::enumerate")
def m_itenum(I, c):
    return ("iter", "enum", mkiter(I, c.args[0], c.st)), c.st


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_itcloned(I, c):
    return ("iter", "cloned", mkiter(I, c.args[0], c.st)), c.st


@model("std::iter::Iterator::rev")
def m_itrev(I, c):
    return ("iter", "rev", mkiter(I, c.args[0], c.st)), c.st


@model("std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::step_by")
def m_itskip(I, c):
    return ("iter", {"skip": "skip", "take": "take", "step_by": "step"}[c.decl.rsplit("::", 1)[1]],
            mkiter(I, c.args[0], c.st), c.args[1]), c.st


@model("std::iter::Iterator::flat_map", "std::iter::Iterator::flatten")
def m_itflat(I, c):
    return ("iter", "flat_map", mkiter(I, c.args[0], c.st), c.args[1] if len(c.args) > 1 else None), c.st


@model("std::slice::<impl [T]>::chunks", "std::slice::<impl [T]>::chunks_exact", "std::slice::<impl [T]>::windows")
def m_chunks(I, c):
    w = c.decl.rsplit("::", 1)[1]
    return ("iter", "windows" if w == "windows" else "chunks", D(I, c.args[0], c.st), D(I, c.args[1], c.st), w), c.st


@model("std::slice::<impl [T]>::split_at", "std::slice::<impl [T]>::split_at_mut")
def m_splitat(I, c):
    a, n, k = c.args[0], D(I, c.args[1], c.st), 0
    while a[0] == "ref" and k < 6:
        nx = I.pick(I.load(c.st, a[1], a[2]), c.st)
        if nx[0] != "ref":
            break
        a = nx
        k += 1
    if c.decl.endswith("_mut") and a[0] == "ref":
        return ("tup", (("ref", a[1], a[2] + (("ss", "RangeTo", (n,)),)), ("ref", a[1], a[2] + (("ss", "RangeFrom", (n,)),)))), c.st
    v = D(I, a, c.st)
    return ("tup", (("subslice", v, "RangeTo", (n,)), ("subslice", v, "RangeFrom", (n,)))), c.st


@model("std::iter::Iterator::zip")
def m_itzip(I, c):
    return ("iter", "zip", mkiter(I, c.args[0], c.st), mkiter(I, c.args[1], c.st)), c.st


@model("std::iter::zip")
def m_itzip2(I, c):
    return m_itzip(I, c)


@model("std::iter::Iterator::chain")
def m_itchain(I, c):
    return ("iter", "chain", mkiter(I, c.args[0], c.st), mkiter(I, c.args[1], c.st)), c.st


@model("std::iter::once")
def m_once(I, c):
    return ("iter", "src", ("arr", (c.args[0],))), c.st


@model("std::iter::empty")
def m_empty(I, c):
    return ("iter", "src", ("arr", ())), c.st


@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(I, c):
    it = D(I, c.args[0], c.st)
    if it[0] == "adt" and it[1].endswith("ops::Range"):
        it = mkiter(I, it, c.st)
    if it[0] != "iter":
        return ("phi", ("next", it, site_key(c)), ((0, NONE), (1, some(("elem", it, IT))))), c.st
    if it[1] == "one":
        return some(it[2]), c.st
    s2 = []
    r = iter_elem(I, it, c.st, s2, c.site)
    if r is None:
        return NONE, c.st
    key = ("next", it, site_key(c))
    if s2:
        c.seq.append(("alt", key, ((1, tuple(s2), "fall"), (0, (), "fall")), c.site))
    st = merge_states(key, [(1, r[1]), (0, c.st)]) if r[1] is not c.st else c.st
    return ("phi", key, ((0, NONE), (1, some(r[0])))), st


def site_key(c):
    return (c.fr.id, c.site[1]) if c.fr is not None else c.site and (c.site[0].id, c.site[1])


def drive(I, c, it, fn):
    """run fn(elem, state, seq) as the body of a loop over `it`; returns (value of last run, state)"""
    lid = ("ext", c.decl, site_key(c), it)
    hst = c.st
    val = None
    for _ in range(6):
        s2 = []
        r = iter_elem(I, it, hst.copy(), s2, c.site)
        if r is None:
            return None, hst
        q = fn(r[0], r[1], s2)
        if q is None:
            return None, hst
        val = q[0]
        new, changed = I.widen(lid, hst, q[1], c.fr)
        if not changed:
            break
        hst = new
    if s2:
        c.seq.append(("loop", lid, tuple(s2), c.site))
    return val, hst


@model("std::iter::Iterator::for_each")
def m_foreach(I, c):
    it = mkiter(I, c.args[0], c.st)
    v, st = drive(I, c, it, lambda e, s, q: I.call_value(c.args[1], [e], s, q, c.site))
    return UNIT, st


@model("std::iter::Iterator::try_for_each")
def m_tryforeach(I, c):
    it = mkiter(I, c.args[0], c.st)
    v, st = drive(I, c, it, lambda e, s, q: I.call_value(c.args[1], [e], s, q, c.site))
    return ok(UNIT), st


def search_literal(I, c, it):
    """any / all / find / position over a literal list of known elements, when the closure decides each of them"""
    items = literal_items(I, it, c.st, 40)
    w = c.decl.rsplit("::", 1)[1]
    if items is None:
        return None
    st = c.st
    for i, e in enumerate(items):
        x, seq = e, []
        if w == "find":
            root = ("C", I.fresh())
            st = st.copy()
            st.store[root] = e
            x = ("ref", root, ())
        v, s2 = I.call_value(c.args[1], [x], st, seq, c.site)
        v = I.pick(v, s2) if v is not None and s2 is not None else None
        if v is None or v[0] != "c" or seq:
            return None
        st = s2
        if bool(v[1]) == (w != "all"):
            return {"any": C(1), "all": C(0), "find": some(e), "position": some(C(i))}[w], st
    return {"any": C(0), "all": C(1), "find": NONE, "position": NONE}[w], st


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find",
       "std::iter::Iterator::position")
def m_any(I, c):
    it = mkiter(I, c.args[0], c.st)
    r = search_literal(I, c, it)
    if r is not None:
        return r
    hold = {}

    def f(e, s, q):
        hold["e"] = e
        x = e
        if c.decl.endswith("find"):
            root = ("C", I.fresh())
            s = s.copy()
            s.store[root] = e
            x = ("ref", root, ())
        return I.call_value(c.args[1], [x], s, q, c.site)
    v, st = drive(I, c, it, f)
    w = c.decl.rsplit("::", 1)[1]
    if w == "find":
        key = ("found", it, v)
        if v is None:
            return NONE, st
        return ("phi", key, ((1, some(hold["e"])), (0, NONE))), st
    if w == "position":
        return ("phi", ("found", it, v), ((1, some(("idxr", C(0), iter_len(I, it, st)))), (0, NONE))), st
    if v is None:
        return C(0 if w == "any" else 1), st
    return (w, it, v), st


@model("std::iter::Iterator::fold")
def m_fold(I, c):
    it = mkiter(I, c.args[0], c.st)
    lv = ("lv", (("ext", c.decl, site_key(c)), ("acc",)))
    v, st = drive(I, c, it, lambda e, s, q: I.call_value(c.args[2], [lv, e], s, q, c.site))
    if v is None:
        return c.args[1], st
    I.lvdefs.setdefault(lv, {}).update({"init": c.args[1], "back": v})
    return lv, st


@model("std::iter::Iterator::sum", "std::iter::Iterator::product", "std::iter::Iterator::max",
       "std::iter::Iterator::min", "std::iter::Iterator::last")
def m_sum(I, c):
    it = mkiter(I, c.args[0], c.st)
    xs = literal_items(I, it[2] if it[1] == "map" else it, c.st)
    if xs is not None and c.decl.endswith("sum"):
        tot, st = C(0), c.st
        for x in xs:
            if it[1] == "map":
                x, st = I.call_value(it[3], [x], st, c.seq, c.site)
            tot = I.binop("Add", tot, D(I, x, st))
        return tot, st
    v, st = drive(I, c, it, lambda e, s, q: (D(I, e, s), s))
    return (c.decl.rsplit("::", 1)[1], v or C(0), it), st


@model("std::iter::Iterator::count")
def m_count(I, c):
    it = mkiter(I, c.args[0], c.st)
    return iter_len(I, it, c.st), c.st


@model("std::iter::Iterator::collect")
def m_collect(I, c):
    it = mkiter(I, c.args[0], c.st)
    src = it[2] if it[1] == "src" else None
    if it[1] in ("map",) and it[2][1] == "src":
        # element-wise over a known array: keep it an array
        x = D(I, it[2][2], c.st)
        if x[0] == "arr" and len(x[1]) <= 40:
            out = []
            st = c.st
            for e in x[1]:
                r = I.call_value(it[3], [e], st, c.seq, c.site)
                if r is None:
                    return None
                out.append(r[0])
                st = r[1]
            return wrap_coll(I, c, ("arr", tuple(out))), st
    if src is not None:
        x = D(I, src, c.st)
        return wrap_coll(I, c, x), c.st
    v, st = drive(I, c, it, lambda e, s, q: (e, s))
    if v is None:
        return wrap_coll(I, c, ("arr", ())), st
    return wrap_coll(I, c, ("coll", v, it)), st


def wrap_coll(I, c, v):
    d = dest_ty(I, c)
    if d and d.get("k") == "adt" and norm(d["name"]) in (RES, OPT):
        if v[0] == "coll":
            v = ("coll", payload(v[1]), v[2])
        elif v[0] == "arr":
            v = ("arr", tuple(payload(x) for x in v[1]))
        return ok(v) if norm(d["name"]) == RES else some(v)
    return v


@model("std::array::<impl [T; N]>::map")
def m_arrmap(I, c):
    v = D(I, c.args[0], c.st)
    if v[0] == "arr":
        out = []
        st = c.st
        for e in v[1]:
            r = I.call_value(c.args[1], [e], st, c.seq, c.site)
            if r is None:
                return None
            out.append(r[0])
            st = r[1]
        return ("arr", tuple(out)), st
    return NotImplemented


# ------------------------------------------------------------------ calls of function values
@pat(r"^std::ops::(FnOnce|FnMut|Fn)::call(_once|_mut)?$")
def m_callfn(I, c):
    a = c.args[1] if len(c.args) > 1 else UNIT
    a = list(a[1]) if a[0] == "tup" else [a]
    return I.call_value(c.args[0], a, c.st, c.seq, c.site)


# ------------------------------------------------------------------ strings
@pat(r"^std::str::<impl str>::(contains|starts_with|ends_with|trim|replace|to_lowercase|to_uppercase)$")
def m_strop(I, c):
    a = [D(I, x, c.st) for x in c.args]
    w = c.decl.rsplit("::", 1)[1]
    if all(x[0] == "s" for x in a):
        s = a[0][1]
        try:
            if w == "contains": return C(int(a[1][1] in s)), c.st
            if w == "starts_with": return C(int(s.startswith(a[1][1]))), c.st
            if w == "ends_with": return C(int(s.endswith(a[1][1]))), c.st
            if w == "trim": return S(s.strip()), c.st
            if w == "replace": return S(s.replace(a[1][1], a[2][1])), c.st
            if w == "to_lowercase": return S(s.lower()), c.st
            if w == "to_uppercase": return S(s.upper()), c.st
        except Exception:
            pass
    return ("call", c.decl, tuple(a)), c.st


# ------------------------------------------------------------------ downcast
@pat(r"^downcast::Downcast::(downcast|downcast_ref|downcast_mut)$|::(downcast_ref|downcast_mut|downcast)$")
def m_downcast(I, c):
    a = c.f.get("args") or []
    tys = [norm(I.T(x)["s"]) for x in a if isinstance(x, int)]
    v = D(I, c.args[0], c.st)
    want = tys[-1] if tys else "?"
    if v[0] == "dyn":
        same = norm(v[1]) == want
        return (ok(v[3]) if same else err(("top", "downcast"))), c.st
    return ("downcast", want, v), c.st


# ------------------------------------------------------------------ num_traits on derived enums
@pat(r"^num_traits::(?:cast::)?(FromPrimitive::from_(i8|i16|i32|u8|u16|u32|u64)|ToPrimitive::to_(i8|i16|i32|u8|u16|u32|u64))$")
def m_numtraits(I, c):
    tr, m = c.decl.split("::")[-2:]
    want = m.split("_")[0] + "_i64"
    d = c.f.get("dargs") or c.f.get("args") or []
    if not (d and isinstance(d[0], int)):
        return NotImplemented
    t = I.T(d[0])
    t = norm(t.get("name") or t["s"])
    r = [b for p in ("", "cast::") for b in I.facts.mono_suffix("<impl num_traits::%s%s for %s>::%s" % (p, tr, t, want))]
    if not r:
        return NotImplemented
    v, st = I.call_body(r[0], c.args, c.st, c.seq, c.site)
    return None if v is None else (v, st)


# ------------------------------------------------------------------ operators of numbers behind references
@pat(r"^std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor)(Assign::\w+_assign|::\w+)$")
def m_number_op(I, c):
    """`a *= &b` and the like go through the trait; on integers they are the operation itself"""
    op = re.match(r"std::ops::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor)", c.decl).group(1)
    for i in (0, 1):
        t = argty(I, c, i)
        while t and t.get("k") == "ref":
            t = I.T(t["ty"]) if "ty" in t else None
        if not t or t.get("k") not in ("int", "uint"):
            return NotImplemented
    v = I.binop(op, D(I, c.args[0], c.st), D(I, c.args[1], c.st), c.st)
    if "Assign" not in c.decl:
        return v, c.st
    if c.args[0][0] != "ref":
        return NotImplemented
    st = c.st.copy()
    I.store_to(st, c.args[0][1], c.args[0][2], v, c.site)
    return UNIT, st


@pat(r"^<std::string::String as std::convert::From<&(mut )?str>>::from$")
def m_string_from(I, c):
    """`.map(String::from)`: the function named as a value"""
    v = D(I, c.args[0], c.st)
    return (v, c.st) if v[0] == "s" else NotImplemented
