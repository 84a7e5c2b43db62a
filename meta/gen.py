"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand after editing it)."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
M = {"version": 1,
     "setup_cmd": "python3 engine/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "One engine (engine/check.py) decides every property from /repo's current source; spec.py lists the analyses of each."}
for p in props.PROPS:
    if "na" in p:
        M["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    M["checks"].append({"property": p["id"], "quick_cmd": "python3 engine/check.py %s" % p["id"],
                        "thorough_cmd": "python3 engine/check.py %s --thorough" % p["id"],
                        "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(M["checks"]), "checks,", len(M["not_applicable"]), "not applicable")
