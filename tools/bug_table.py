#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- bug table -->\n"
rows = []
for f in glob.glob(HERE + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"],
                 m.get("caught_by", m["property"])))
out = "| bug | property | caught by | needs |\n|---|---|---|---|\n"
for p, i, n, c in sorted(rows):
    out += f"| {i} | {p} | {c} | {n} |\n"
d = open(HERE + "/DESIGN.md").read()
d = d.split(MARK)[0] + MARK + out
open(HERE + "/DESIGN.md", "w").write(d)
