#!/usr/bin/env python3
"""DESIGN.md = design_head.md + design_props.md + design_tail.md, with the table of planted bugs (seeded/*/meta.json, tools/caught.json) and tools/misses.md."""
import json, os, glob
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
r = lambda n: open(os.path.join(T, n)).read()
caught = json.loads(r("caught.json")) if os.path.exists(os.path.join(T, "caught.json")) else {}
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")), key=lambda p: (json.load(open(p))["property"], p)):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], caught.get(i, "not tried")))
tail = r("design_tail.md").replace("@TABLE@", "\n".join(rows)).replace("@MISSES@", r("misses.md").strip())
open(os.path.join(V, "DESIGN.md"), "w").write(r("design_head.md") + "\n" + r("design_props.md") + "\n" + tail)
