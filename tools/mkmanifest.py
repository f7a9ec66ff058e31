#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: CLAIMED below, everything else not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i}",
            technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Static analysis only: a repository-specific analyser in sa/ (go/packages + go/ssa) that enumerates abstract paths of the current /repo source and checks rules on them. No hooks in /repo."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "na")
