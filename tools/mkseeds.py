#!/usr/bin/env python3
"""replaces the table of planted bugs in DESIGN.md (development tool; no check reads /verif/seeded)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "| --- | --- | --- |"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["property"]))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- end planted -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- planted -->.*?<!-- end planted -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
