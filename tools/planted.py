#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json; `caught` is the hand-kept list of misses below."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| bug | needs | check |", "|-----|-------|-------|"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), MISSED.get(i, m["property"])))
p = HERE + "/DESIGN.md"
s = open(p).read()
if "PLANTED" in s:
    s = s.replace("PLANTED", "\n".join(rows), 1)
else:
    s = re.sub(r"\| bug \| needs \| check \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s, count=1)
open(p, "w").write(s)
