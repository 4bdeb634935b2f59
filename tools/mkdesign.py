#!/usr/bin/env python3
"""Completes DESIGN.in.md to DESIGN.md: per-property notes from checks.json, seeded results from tools/seeded.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.in.md").read()
cfg = json.load(open(V + "/checks.json"))["properties"]
out = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = cfg.get(p["id"], {})
    out.append("### %s %s (%s)\n%s\n" % (p["id"], p["title"], c.get("level", "proof"), c.get("design", "")))
s = s.replace("@@PROPS@@", "\n".join(out))
r = json.load(open(V + "/tools/seeded.json")) if os.path.exists(V + "/tools/seeded.json") else {}
rows = ["| bug | property | result | reported by |", "|---|---|---|---|"]
for k in sorted(r):
    rows.append("| %s | %s | %s | %s |" % (k, r[k]["property"], r[k]["result"], r[k]["by"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write(s.replace("@@SEEDS@@", "\n".join(rows)))
