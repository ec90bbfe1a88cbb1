#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has harnesses."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(HERE, "checks")):
    if f.startswith("c_"):
        src = open(os.path.join(HERE, "checks", f)).read()
        for m in re.finditer(r"@harness\(((?:\"C\d\d\",?\s*)+)", src):
            have |= set(re.findall(r"C\d\d", m.group(1)))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    if p["id"] in have:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "symbolic execution of the real Python source, assertions decided by z3, counterexamples replayed",
            "level": "model_checking",
            "level_note": NOTES.get(p["id"], "bounded symbolic model checking; bounds in evidence and DESIGN.md"),
        })
    else:
        na.append({"property": p["id"], "reason": "no check yet (being built)"})
m = {"version": 1, "setup_cmd": "python3-vt tools/selfcheck.py", "checks": checks}
if na:
    m["not_applicable"] = na
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
