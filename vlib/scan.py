"""Flow-insensitive queries over MIR facts: calls, field writes, callers."""
from facts import norm, cfg


def calls(body):
    """(bb, term, resolved name, declared name)"""
    for i, bl in enumerate(body.blocks):
        t = bl["t"]
        if t["k"] == "call":
            f = t["f"]
            if f.get("kind") == "indirect":
                yield i, t, None, None
            else:
                yield i, t, norm(f["def"]), norm(f.get("decl") or f["def"])


def place_fields(body, p):
    """[(owner adt, field name)] along a place projection"""
    out = []
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "f":
            t = body.facts.types[e[3]] if e[3] is not None else None
            out.append((norm(t["name"]) if t and t.get("k") == "adt" else None, e[2]))
    return out


def field_writes(body):
    """(owner, field, how, bb): every field that a statement of the body may modify"""
    for i, bl in enumerate(body.blocks):
        for s in bl["s"]:
            if s[0] != "=":
                continue
            for o, f in place_fields(body, s[1]):
                yield o, f, "assign", i
            r = s[2]
            if r[0] in ("ref", "reborrow", "addr", "rawptr") and len(r) > 2 and r[1] and isinstance(r[2], list):
                for o, f in place_fields(body, r[2]):
                    yield o, f, "borrow", i
        t = bl["t"]
        if t["k"] == "call":
            for o, f in place_fields(body, t["d"]):
                yield o, f, "assign", i


def field_write_index(F):
    """{(owner, field): {body name}} over all bodies, generic and monomorphic"""
    ix = {}
    for b in F.bodies.values():
        for o, f, how, i in field_writes(b):
            ix.setdefault((o, f), set()).add(root_fn(b.name))
    return ix


def root_fn(name):
    """name of the function a closure body belongs to"""
    i = name.find("::{closure")
    return name if i < 0 else name[:i]


def call_graph(F):
    """{caller body id: {callee body id}} with closures counted as called by the function that creates them;
    virtual calls go to every body implementing the declared method"""
    g = {}
    impls = {}
    for b in F.bodies.values():
        n = b.name
        if n.startswith("<") and " as " in n:
            tr = n[n.rindex(" as ") + 4:]
            impls.setdefault(tr.replace(">::", "::", 1), []).append(b.id)
    for b in F.bodies.values():
        out = g.setdefault(b.id, set())
        for i, t, nm, decl in calls(b):
            f = t["f"]
            if nm is None:
                continue
            if f.get("id") in F.bodies:
                out.add(f["id"])
            elif decl in impls:
                out.update(impls[decl])
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                    for x in s[2]:
                        if isinstance(x, str) and x in F.bodies:
                            out.add(x)
    return g


def reachable(g, roots):
    seen = set(roots)
    work = list(roots)
    while work:
        x = work.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen
