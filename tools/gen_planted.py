#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
k = "<!-- planted bugs -->"
s = s[:s.index(k)] + k + "\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows))
