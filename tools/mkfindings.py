#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired in /repo (fixed entries suppress nothing) and recorded findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [l.split("\t") for l in open(os.path.join(V, "tools", "fixed.tsv")).read().splitlines() if l.strip()]
log = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split("\t", 1); log[s] = h
fixed = []
for prop, subject, what in FIX:
    assert "fix: " + subject in log, subject
    fixed.append("fixed: property=%s %s %s" % (prop, log["fix: " + subject], what))
missing = [s for s in log if s.startswith("fix: ") and s[5:] not in [f[1] for f in FIX]]
assert not missing, missing
p = os.path.join(V, "tools", "findings.json")
json.dump(dict(fixed=fixed, findings=json.load(open(p)) if os.path.exists(p) else []), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed")
