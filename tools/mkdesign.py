#!/usr/bin/env python3
"""Writes DESIGN.md: head, one paragraph per property, planted changes, tail."""
import json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = runpy.run_path(os.path.join(V, "tools/claims.py"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i not in m["CLAIMED"]:
        out += [f"**{i} {p['title']}.** Not applicable: {m['NA'][i]}", ""]
        continue
    c = m["CLAIMED"][i]
    out += [f"**{i} {p['title']}.**"]
    f = V + f"/evidence/{i}.json"
    if os.path.exists(f):
        e = json.load(open(f)); k = e["coverage"]
        out += [k["explanation"] if "explanation" in k else ""]
        rules = k.get("rules") or k.get("obligations_by_rule") or {}
        if isinstance(rules, dict) and rules:
            out += ["Rules: " + ", ".join(sorted(rules)) + "."]
        if e.get("assumptions"):
            out += ["Assumes: " + "; ".join(e["assumptions"]) + "."]
    out += [f"Method: {c[0]}. Bounds: {c[1]}"]
    seeds = [d for d in sorted(os.listdir(V + "/seeded")) if d.startswith(i + "-")]
    if seeds: out += ["Catches: " + ", ".join(seeds) + "."]
    out += [""]
out += ["## Planted changes", "", "All are caught by the check of their own property.", "", "| id | needs | breaks |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    s = json.load(open(V + f"/seeded/{d}/meta.json"))
    cl = lambda x: " ".join(str(x).replace("|", "/").split())
    out.append(f"| {d} | {cl(s['needs'])} | {cl(s['what_it_breaks'])} |")
out += [open(V + "/tools/design_tail.md").read().rstrip()]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
