#!/usr/bin/env python3
"""Records the parameter names the rules use (lib/params.json), so that renaming a parameter changes nothing."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/lib"]
from core import program

P = program()
out, bad = {}, set()
for b in P.bodies.values():
    if b.kind in ("closure", "coroutine"):
        continue
    k = b.crate + "|" + b.name
    ns = [b.locals[i][1] or f"#{i}" for i in range(1, b.argc + 1)]
    if out.setdefault(k, ns) != ns:
        bad.add(k)
for k in bad:
    del out[k]
json.dump({k: out[k] for k in sorted(out) if out[k]}, open(HERE + "/lib/params.json", "w"), indent=0)
print(len(out), "functions")
