"""Case split of a symbolic receiver: one abstract value for every combination of variants of the enum-typed fields of a struct.
References into a variant are then concrete, so that two ways of reaching the same place are seen to be the same place."""
from facts import norm


def pointee(F, ti):
    t = F.ty(ti)
    for _ in range(4):
        if t and t.get("k") in ("ref", "ptr"):
            ti = t["ty"]
            t = F.ty(ti)
    return ti


def receivers(F, body, base=("p", "self"), limit=16):
    """[(label, value of *self)]; a single (\"\", None) when there is nothing to split"""
    if not body.argc:
        return [("", None)]
    ti = pointee(F, body.locals[1][0])
    t = F.ty(ti)
    if not t or t.get("k") != "adt" or t["kind"] != "Struct" or not t["name"].startswith("oxyroot"):
        return [("", None)]
    out = [((), ())]
    for f, fti in t["variants"][0]["fields"]:
        ft = F.ty(fti)
        if not ft or ft.get("k") != "adt" or ft["kind"] != "Enum":
            continue
        n = norm(ft["name"])
        nxt = []
        for i, v in enumerate(ft["variants"]):
            pay = tuple(("fld", ("fld", base, f), z[0]) for z in v["fields"])
            nxt.append((f, "%s %s" % (f, v["name"]), ("adt", n, i, pay)))
        if len(out) * len(nxt) > limit:
            continue
        out = [(l + (lab,), u + ((f, val),)) for l, u in out for f, lab, val in nxt]
    if out == [((), ())]:
        return [("", None)]
    return [(", ".join(l), ("upd", base, tuple(sorted(u, key=repr)))) for l, u in out]


def state(value, base=("p", "self")):
    from absint import State
    return None if value is None else State({("H", base): value})
