#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(v + "/seeded")):
    m = json.load(open(f"{v}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m.get('caught_by', m['property'])} | {m['needs']} |")
s = open(v + "/DESIGN.md").read()
i = s.index("<!-- seedtable -->")
s = s[:i] + "<!-- seedtable -->\n| bug | breaks | caught by | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(v + "/DESIGN.md", "w").write(s)
