"""Which field of which struct holds a member of a ROOT class: read off the marshaller of the class by matching what it
writes against the description of the class. And finding the struct inside a value by its type."""
import wire
from absint import strip
from facts import norm
from checks import c01, c02


class Members:
    """fields: {member: term over ("p","self")}; arrays: {member: [values written]}"""

    def __init__(self, ctx, F, cls, writer=None):
        self.cls, self.struct, self.fields, self.arrays, self.why = cls, None, {}, {}, None
        W, _ = c01.bodies(F)
        spec = c02.Spec(ctx, F)
        for w, wb in sorted(W.items()):
            if writer is not None and w != writer:
                continue
            if w in c02.UNHEADED:
                if c02.UNHEADED[w] != cls:
                    continue
                start = c02.push(c02.CUSTOM[cls], None)
                nodes = wire.run_writer(F, wb)
            else:
                if writer is None and cls in c02.UNHEADED.values():
                    continue
                nodes = wire.run_writer(F, wb)
                first = next((n for n in nodes[1] if n[0] == "ev"), None)
                if first is None or first[2] != "hdr" or first[3] != ("s", cls):
                    continue
                start = c02.push((("rec", cls),), None)
            self.I, self.nodes, self.body = nodes[0], nodes[1], wb
            M = c02.Match(spec)
            M.walk(nodes[1], {start})
            if M.err or M.unknown:
                self.why = "%s does not match the description of %s" % (w, cls)
                return
            self.struct = w
            for n, v, site in M.fields:
                self.fields.setdefault(n, v)
            for n, v, site in M.arrays:
                self.arrays.setdefault(n, [])
                if v not in [x for x, _ in self.arrays[n]]:
                    self.arrays[n].append((v, site))
            return
        self.why = "no writer of %s" % cls

    def home(self, n):
        """the list a member is written from: a term over self"""
        for v, _ in self.arrays.get(n, ()):
            h = source(v)
            if h is not None:
                return h
        return None


def source(v):
    v = strip(v)
    while v[0] in ("subslice", "resized", "elem", "ext", "push", "upd") and isinstance(v[1], tuple):
        v = strip(v[1])
    x = v
    while x[0] == "fld":
        x = strip(x[1])
    return v if x == ("p", "self") and v != x else None


def find(F, io, ti, v, struct, depth=5):
    """the part of the value that is the struct; enums must be of a known variant"""
    t = F.ty(ti)
    n = 0
    while t and t.get("k") in ("ref", "ptr") and n < 3:
        ti, n = t["ty"], n + 1
        t = F.ty(ti)
    if not t or t.get("k") != "adt":
        return None
    if norm(t["name"]) == struct:
        return v
    if depth == 0 or not t.get("variants"):
        return None
    if t["kind"] == "Enum":
        s = strip(v)
        if s[0] != "adt" and s[0] != "upd":
            return None
        while s[0] == "upd":
            s = strip(s[1])
        if s[0] != "adt":
            return None
        var = t["variants"][s[2]]
        for (f, fti), x in zip(var["fields"], s[3]):
            r = find(F, io, fti, x, struct, depth - 1)
            if r is not None:
                return r
        return None
    if not norm(t["name"]).startswith("oxyroot"):
        return None
    for f, fti in t["variants"][0]["fields"]:
        r = find(F, io, fti, io.get(v, f), struct, depth - 1)
        if r is not None:
            return r
    return None
