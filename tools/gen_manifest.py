#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed checks below.
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = json.load(open(os.path.join(root, "tools", "techniques.json")))
NA = T.get("not_applicable", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T["checks"]:
        t, note = T["checks"][i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
