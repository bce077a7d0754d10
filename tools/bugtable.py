#!/usr/bin/env python3
"""Lists the planted changes for DESIGN.md: property, id, what it needs."""
import json, os, glob
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
rows = []
for f in glob.glob(here + "/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
for p, i, n in sorted(rows):
    print(f"| {p} | {i} | {n} |")
