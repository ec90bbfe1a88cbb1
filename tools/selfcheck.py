#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the interpreters, the solvers and /repo are in place."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import z3  # noqa: E402

s = z3.SimpleSolver()
x = z3.Int("x")
s.add(x * 3 == 12)
assert s.check() == z3.sat and s.model()[x].as_long() == 4
import check  # noqa: E402

hs = check.load()
assert hs
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "native.py")], input="", text=True, capture_output=True, env=env)
assert p.stdout.strip() == "ready", p.stderr
print(f"z3 {z3.get_version_string()}, {len(hs)} harnesses, replay server ready")
