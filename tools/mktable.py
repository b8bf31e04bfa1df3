#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S) if "<!-- bugs -->" in s else s.replace("TABLE", t)
open(p, "w").write(s)
