#!/usr/bin/env python3
"""Rewrite the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
lines = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    lines.append(f"* `{i}` → {m['property']}: {m['what_it_breaks']}")
a = d.index("\n* `c01-")
b = d.index("\n\n", a)
open(V + "/DESIGN.md", "w").write(d[:a] + "\n" + "\n".join(lines) + d[b:])
