#!/bin/sh
# DESIGN.md = head + table of harnesses + tail
cd "$(dirname "$0")/.." && { cat tools/design_head.md; python3-vt tools/harness_table.py; cat tools/design_tail.md; python3-vt tools/seeded_table.py; [ ! -f tools/design_times.md ] || cat tools/design_times.md; } > DESIGN.md
