#!/bin/bash
# Rebuild /repo and run its stable tests; prints any that no longer pass.
bash /opt/vp/build.sh >/tmp/regress_build.log 2>&1 || { tail -20 /tmp/regress_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/regress.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/regress.json'))['passed'])
print(len(b&o), "pass; missing:", sorted(b-o))
P
git -C /repo status --short | head
