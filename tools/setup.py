#!/usr/bin/env python3
"""Builds every variant and driver the quick checks need, so that the first check does not pay for it (checks rebuild what changed)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props, vrun
t = set()
for s in props.SPECS.values():
    for j in s["jobs"]: t.add((j.variant, j.driver))
vrun.build(sorted(t))
print("built", len(t), "drivers")
