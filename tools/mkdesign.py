#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["what_it_breaks"], j["needs"]))
rows.sort()
esc = lambda t: str(t).replace("|", "\\|").replace("\n", " ")
tab = "| property = check that catches it | change | breaks | needs |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % tuple(map(esc, r)) for r in rows)
p = root + "/DESIGN.md"
t = open(p).read()
a, b = t.index("<!-- table -->"), t.index("<!-- end table -->")
open(p, "w").write(t[:a] + "<!-- table -->\n" + tab + t[b:])
