#!/usr/bin/env python3-vt
"""Prints DESIGN.md's table of harnesses, from the registry."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402

rows = {}
for h in check.load():
    for p in h.props:
        rows.setdefault(p, []).append(h)
for p in sorted(rows):
    print(f"\n**{p}**\n")
    for h in rows[p]:
        doc = " ".join((h.fn.__doc__ or "").split())
        print(f"- `{h.name}` ({len(h.instances('quick'))} / {len(h.instances('thorough'))} instances). {doc} *Bounds:* {h.note or 'none beyond the types'}.")
