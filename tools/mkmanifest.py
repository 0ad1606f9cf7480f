#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property `ymon list` knows."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {}
exec(open(os.path.join(V, "tools", "claims.py")).read(), T)
claims, na = T["CLAIMS"], T["NOT_APPLICABLE"]
checks, out = [], []
for p in props:
    i = p["id"]
    if i in claims:
        tech, note = claims[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else:
        out.append(dict(property=i, reason=na.get(i, "its monitor is not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=out)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
