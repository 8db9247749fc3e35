#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from build/catches.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = json.load(open(os.path.join(V, "build", "catches.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    got = [p for p, rc in sorted(res.get(i, {}).items()) if rc == 1]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), ", ".join(got) or "missed"))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s[:s.index("<!-- catches -->")] + "<!-- catches -->\n(Only the listed property's own check was run on most of them.)\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
