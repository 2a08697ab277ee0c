#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| seed \| property \| needs \|\n\|---\|---\|---\|\n)(?:\|.*\n|SEEDTABLE\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
