#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props_data.py and claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props_data, claims
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props_data.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: anchors["state"] = p["state"]
        if p["observe"]: anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
checks, na = [], []
for p in props_data.PROPS:
    i = p["id"]
    if i in claims.CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": p["technique"], "level": claims.LEVEL.get(i, "exploration"), "level_note": claims.CLAIMED[i]})
    else:
        na.append({"property": i, "reason": claims.NOT_CLAIMED.get(i, "No check built yet; work in progress.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": claims.HOOKS, "checks": checks, "not_applicable": na, "notes": claims.NOTES}
if m["hooks"] is None: del m["hooks"]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
