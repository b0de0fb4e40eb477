#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'what' FILE <<< 'OLD\n====\nNEW' ; demo.c read from /tmp/demo.c: package a planted change (patch made in a scratch copy)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id_, prop, needs, what = sys.argv[1:5]; files = sys.argv[5:]
parts = sys.stdin.read().split("\n@@@@\n")
assert len(parts) == len(files), (len(parts), len(files))
d = os.path.join(V, "seeded", id_); os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % t, shell=True)
subprocess.check_call("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=t)
for f, p in zip(files, parts):
    old, new = p.split("\n====\n"); new = new.rstrip("\n"); old = old.strip("\n")
    if new.startswith("\n"): new = new[1:]
    s = open(os.path.join(t, f)).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(os.path.join(t, f), "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "diff"], cwd=t, text=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.copy("/tmp/demo.c", os.path.join(d, "demo.c"))
shutil.copy(os.path.join(V, "tools", "demo_tpl.sh"), os.path.join(d, "demo.sh")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
shutil.rmtree(t)
# the removed lines must be the original repository's
blame = []
for f in files:
    pass
print(diff)
