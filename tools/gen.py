#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
V = os.path.dirname(here)
chk, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            assert os.path.exists(os.path.join(V, "vlib/checks", p["id"].lower() + ".py")), p["id"]
            chk.append({"property": p["id"], "quick_cmd": "bash /verif/check.sh " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough bash /verif/check.sh " + p["id"],
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": chk, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(chk), "claimed,", len(na), "not applicable")
