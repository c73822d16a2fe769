#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt (ID CXX result)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + "/tools/caught.txt"):
    p = l.split(None, 2)
    if len(p) == 3: res[p[0]] = (p[1], p[2].strip())
d = open(V + "/DESIGN.md").read()
m = "<!-- planted bugs -->\n"
d = d.split(m)[0].rstrip() + "\n\n" + m + "\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(f)); j = json.load(open(f)); c, t = res.get(n, (j["property"], "not run"))
    d += f"| {n} | {j['property']} | {j['needs']} | {c + ', ' + t if t.startswith('quick') else t} |\n"
open(V + "/DESIGN.md", "w").write(d)
