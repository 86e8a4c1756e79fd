#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + """

%d changes that compile, pass the 296 tests and break a property on something
unusual only. Each is caught by the quick check of its own property (`python3
tools/runseeds.py`), which is the check named in the second column.

| id | property = catching check | needs | breaks |
|---|---|---|---|
%s
""" % (len(rows), "\n".join(rows))
open(p, "w").write(s)
