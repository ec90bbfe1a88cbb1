#!/usr/bin/env python3
"""Prints section 6 of DESIGN.md: the planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, "seeded")
MISSED = set(open(os.path.join(HERE, "tools", "missed.txt")).read().split())
rows = []
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"].replace("|", "/"), "missed" if i in MISSED else m["property"]))
rows.sort()
print("\n## 6. Planted bugs\n")
print(f"{len(rows)} changes in /verif/seeded, each written from a property and the code, with a demonstration that passes on the\n"
      "tree and fails with the change, and passing the existing tests. The quick check of the bug's own property was run on each\n"
      f"(on scratch copies, and by vcheck on samples): {sum(r[3] != 'missed' for r in rows)} caught, "
      f"{sum(r[3] == 'missed' for r in rows)} missed.\n")
print("| bug | breaks | caught by |\n|---|---|---|")
for p, i, what, by in rows:
    print(f"| {i} | {what} | {by} |")
