#!/usr/bin/env python3
"""Refreshes the generated table at the end of DESIGN.md (planted changes and the checks that catch them)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
mark = "<!-- planted -->"
head = s.split(mark)[0]
d = json.load(open(V + "/tools/planted.json"))
rows = ["| planted change | property | what it breaks | caught by | at first |", "|---|---|---|---|---|"]
for i in sorted(d, key=lambda i: (d[i]["property"], i)):
    f = V + "/seeded/%s/meta.json" % i
    if not os.path.exists(f):
        continue
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"),
                ("check of " + m["property"]) if d[i]["now"] else "**missed**", "yes" if d[i]["first"] else "missed, check strengthened"))
open(p, "w").write(head + mark + "\n" + "\n".join(rows) + "\n")
