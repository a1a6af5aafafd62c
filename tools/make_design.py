#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md: the paragraphs per property (tools/design_props.md) and the table of planted bugs."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f"{root}/tools/design.md").read()
p = open(f"{root}/tools/design_props.md").read().strip()
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
d = f"{root}/seeded"
caught = json.load(open(f"{root}/tools/caught.json")) if os.path.exists(f"{root}/tools/caught.json") else {}
for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(f"{d}/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
t = t.replace("@@PROPS@@", p).replace("@@BUGS@@", "\n".join(rows))
open(f"{root}/DESIGN.md", "w").write(t)
