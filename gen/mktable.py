#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
`caught` in a meta.json names what catches it, default: the named property's own quick check."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs | caught by (quick tier) |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught", "the check of " + m["property"])))
d = open(V + "/DESIGN.md").read()
mark = "<!-- table: gen/mktable.py -->"
if mark not in d:
    d = d.replace("@TABLE@", mark + "\n")
d = d[: d.index(mark) + len(mark)] + "\n\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(d)
