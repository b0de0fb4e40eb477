#!/bin/bash
# tryseed.sh ID... : for each seeded change, confirm it builds, passes the stable tests, its demo tells it apart, and which check reports it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1 || { echo "$id: base build failed"; continue; }
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/ts_demo0.log 2>&1); d0=$?
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  if bash $V/tools/regress.sh > /tmp/ts_reg.log 2>&1; then t=$(grep pass /tmp/ts_reg.log); else t="build/tests failed"; fi
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/ts_demo1.log 2>&1); d1=$?
  (cd $V && timeout 900 env VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 check.py $P > /tmp/ts_check.log 2>&1); c=$?
  git -C /repo checkout -- .
  python3 - "$V" "$id" "$P" "$c" "$(grep -m1 -A1 VIOLATION /tmp/ts_check.log | tail -1 | cut -c1-110)" <<'PY'
import sys, json, os
V, i, P, c, t = sys.argv[1:6]; f = V + "/tools/caught.json"; d = json.load(open(f)) if os.path.exists(f) else {}
d[i] = P + ": " + t.strip().replace("|", "/") if c == "1" else "missed (exit %s)" % c
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
PY
  echo "$id [$P]: tests: $t | demo $d0 -> $d1 | check exit $c $(grep -m1 -A1 VIOLATION /tmp/ts_check.log | tail -1 | cut -c1-160)"
done
bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1
