#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property (its check catches it) | needs |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("\n", " ").replace("|", "/")))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->"
p = H + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
