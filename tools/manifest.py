#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json (what each check claims) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
hooks = claims.pop("_hooks", None)
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if not c:
        na.append({"property": i, "reason": "its check is not finished yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": c["technique"],
                   "level": c.get("level", "exploration"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if hooks: m["hooks"] = hooks
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
