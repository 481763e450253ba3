#!/usr/bin/env python3
# Rewrites the "Planted bugs" table of DESIGN.md from seeded/*/meta.json.
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"], m.get("caught_by", m["property"])))
p = here + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs")
j = s.find("\n## ", i + 5)
tail = s[j:] if j >= 0 else ""
open(p, "w").write(s[:i] + """## Planted bugs

Each was written from the text of a property, verified to build, to pass the
stable tests and to fail its demonstration, and then run against the quick
check of the property. The last column names what catches it; "missed" says
that nothing does yet.

""" + "\n".join(rows) + "\n" + tail)
