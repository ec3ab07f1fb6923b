#!/usr/bin/env python3
"""Rewrites the catch table in DESIGN.md from seeded/*/meta.json and tools/catch.tsv (bug<TAB>result)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.rstrip("\n").split("\t", 1) for l in open(here + "/tools/catch.tsv"))
rows = ["| planted bug | property | what it breaks | needs | result |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    k, m = f.split("/")[-2], json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"], m["needs"], res.get(k, "not run")))
s = open(here + "/DESIGN.md").read()
a, b = "<!-- catch table -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(here + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
