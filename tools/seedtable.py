#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(f))
    cell = lambda k: m[k].replace("|", "\\|").replace("\n", " ")
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), cell("what_it_breaks"), cell("needs")))
mark = "<!-- table made by tools/seedtable.py -->\n"
design = root + "/DESIGN.md"
text = open(design).read().split(mark)[0]
text += mark + "\n| property, and check that catches it | planted bug | what it breaks | needs |\n|---|---|---|---|\n"
text += "".join("| %s | %s | %s | %s |\n" % r for r in sorted(rows))
open(design, "w").write(text)
