#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below; every property without a claim is listed as not applicable, with a reason."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TB = "Trusts clang's public API, the driver in engine/ and the reference model in the check. "
C = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        tech, level, note = C[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built for it (yet); see DESIGN.md.")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Checks judge the built binaries as black boxes; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed", len(na), "not")
