"""Runner shared by every check: facts of the current tree, obligations, evidence, known findings, verdict."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import extract  # noqa: E402
import facts as factsmod  # noqa: E402
from facts import norm  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obl = []            # (rule, subject, where, ok, detail)
        self.notes = []
        self.undecided = []
        self.cover = {}
        self._f = {}
        self.dir = None

    def facts(self, crate="oxyroot"):
        if crate not in self._f:
            if self.dir is None:
                self.dir = extract.extract()
            p = os.path.join(self.dir, crate + ".json")
            if not os.path.exists(p):
                wf = os.path.join(self.dir, crate + ".failed")
                raise extract.ExtractError("no facts for %s: %s" % (
                    crate, open(wf).read()[-3000:] if os.path.exists(wf) else ""))
            self._f[crate] = factsmod.Facts(p)
        return self._f[crate]

    # an obligation that was decided
    def ob(self, rule, subject, where, ok, detail=""):
        self.obl.append((rule, subject, where, bool(ok), detail))
        return ok

    def ok(self, rule, subject, where="", detail=""):
        self.ob(rule, subject, where, True, detail)

    def bad(self, rule, subject, where, detail):
        self.ob(rule, subject, where, False, detail)

    def open(self, what):
        """something this analysis could not decide: reported in the evidence, never as a violation"""
        self.undecided.append(what)

    def attempt(self, subject, fn, *a, **kw):
        """analyse one subject; if the analysis itself gives up, that subject is undecided (the floors keep a check that
        gives up everywhere from passing)"""
        try:
            return fn(*a, **kw)
        except extract.ExtractError:
            raise
        except Exception as e:
            self.gave_up = getattr(self, "gave_up", 0) + 1
            self.open("%s: analysis gave up: %s" % (subject, traceback.format_exc(limit=-2)[-400:]))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return None

    def count(self, k, n=1):
        self.cover[k] = self.cover.get(k, 0) + n

    def floor(self, what, n, least):
        """fail closed when the analysed population collapses: a check that looked at nothing proves nothing"""
        self.cover[what] = n
        if n < least and self.undecided:
            self.open("%s: %d analysed, at least %d expected, after undecided parts" % (what, n, least))
            return
        self.ob("coverage-floor", what, "", n >= least, "%d analysed, at least %d expected" % (n, least))


def rel(where):
    return where.replace("/repo/", "") if where else ""


def site_where(site):
    if site and len(site) == 2 and hasattr(site[0], "where"):
        return rel(site[0].where(site[1]))
    return ""


def fn_key(name):
    return norm(name)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                out.append(json.loads(ln))
    return out


def main(prop, fn, rule_text, level="other", assumptions=(), trusted=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
    except extract.ExtractError as e:
        ctx.bad("analysable", "the tree could be compiled and analysed", "", str(e)[-1500:])
    except Exception:
        ctx.bad("analysable", "the analysis ran to completion", "", traceback.format_exc()[-2500:])
    bad = [o for o in ctx.obl if not o[3]]
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    kset = {(k["rule"], k["subject"]): k for k in known}
    viol = [o for o in bad if (o[0], o[1]) not in kset]
    hit = {(o[0], o[1]): o for o in bad if (o[0], o[1]) in kset}
    rules = {}
    for o in ctx.obl:
        r = rules.setdefault(o[0], [0, 0])
        r[0] += 1
        r[1] += o[3]
    samples = [{"rule": o[0], "subject": o[1], "where": o[2], "held": o[3], "detail": o[4][:300]}
               for o in (viol + ctx.obl)[:40]]
    cov = {"explanation": rule_text, "obligations": len(ctx.obl), "discharged": len(ctx.obl) - len(bad),
           "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rules.items())},
           "analysed": ctx.cover, "undecided": sorted(set(ctx.undecided))[:60], "samples": samples,
           "notes": ctx.notes[:40],
           "known_findings": [{"rule": k[0], "subject": k[1]} for k in hit]}
    if level == "proof":
        cov["checker_cmd"] = "bash /verif/check.sh " + prop
        cov["trusted_base"] = list(trusted or [])
    ev = {"property": prop, "tier": tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    print("%s: %d obligations, %d discharged, %d undecided, %.1fs" % (
        prop, len(ctx.obl), len(ctx.obl) - len(bad), len(set(ctx.undecided)), time.time() - t0))
    for k, o in hit.items():
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, o[0], o[1], kset[k].get("what", o[4])[:200]))
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump([{"rule": o[0], "subject": o[1], "where": o[2], "detail": o[4]} for o in viol], f, indent=1)
        for o in viol[:20]:
            print("  [%s] %s at %s: %s" % (o[0], o[1], o[2] or "-", o[4][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
