#!/usr/bin/env python3
# DESIGN.md = design.head.md + table of the planted changes + design.tail.md
import json, os
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
out = open(T + "/design.head.md").read()
out += "| change | caught by | needs |\n|---|---|---|\n"
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append((m["property"], d, m["needs"]))
for p, d, n in sorted(rows):
    out += "| %s | %s | %s |\n" % (d, p, n.replace("|", "/"))
out += "\n" + open(T + "/design.tail.md").read()
open(V + "/DESIGN.md", "w").write(out)
