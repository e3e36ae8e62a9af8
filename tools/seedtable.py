#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "\n## Table of planted changes\n"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read().split(M)[0].rstrip("\n") + "\n"
rows = []
for f in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
s += M + "\n| change | breaks | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for r in sorted(rows):
    s += "| %s | %s | %s | %s | %s |\n" % (r[1], r[0], r[2], r[3], r[4])
open(p, "w").write(s)
