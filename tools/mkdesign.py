#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(\n<!-- /seeded -->)", lambda x: x.group(1) + "\n".join(rows) + x.group(2), s, flags=re.S)
open(p, "w").write(s)
