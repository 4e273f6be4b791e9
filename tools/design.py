#!/usr/bin/env python3
"""Writes the generated tables of DESIGN.md (planted changes) between the markers."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs | caught by |", "|----|----|----|----|----|"]
caught = json.load(open(os.path.join(root, "tools/caught.json")))
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    cell = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), caught.get(d, m["property"])))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
