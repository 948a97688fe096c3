#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | breaks |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = H + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds:begin -->") + len("<!-- seeds:begin -->"), s.index("<!-- seeds:end -->")
open(p, "w").write(s[:a] + "\nCaught by the check of the property in the name:\n\n" + "\n".join(rows) + "\n" + s[b:])
