#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | property, caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"]))
rows.append("<!-- /seeds -->")
p = root + "/DESIGN.md"
s = open(p).read().replace("\nSEEDS\n", "\n<!-- seeds -->\n<!-- /seeds -->\n")
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
