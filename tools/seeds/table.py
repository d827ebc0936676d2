#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and results.tsv
(id, how the property's own quick check did: "caught", "missed at first, now caught", "missed")."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "..", "..")
res = {}
for l in open(os.path.join(H, "results.tsv")):
    if l.strip():
        a, b = l.rstrip("\n").split("\t", 1); res[a] = b
rows = ["| bug | check | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "?")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
k = "<!-- table -->\n"
s = s.split(k)[0] + k + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
