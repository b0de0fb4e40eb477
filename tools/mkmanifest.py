#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
TECH = props.TECH
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.SPECS:
        s = props.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "runtime monitoring: ideal-model oracle over sanitized executions"), level=s["level"], level_note=s.get("note") or props.NOTES.get(i, props.NOTE)))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "The check is not built yet.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the drivers link the real sources, built in sanitizer variants from the working tree, and observe them through the public interface, link-time wrappers and the sanitizers."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
