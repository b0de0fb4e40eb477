#!/bin/bash
# tools/mut.sh PROP FILE PYEXPR-OLD PYEXPR-NEW : try one textual mutant of /repo against a check, then undo it. Development only.
P=$1; F=/repo/$2
python3 - "$F" "$3" "$4" <<'P' || exit 9
import sys
f,a,b=sys.argv[1:4]; s=open(f).read()
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
if a not in s: print("NOT FOUND:",a); sys.exit(1)
open(f,'w').write(s.replace(a,b,1))
P
trap 'git -C /repo checkout -q -- .' EXIT
timeout 900 python3 /verif/check.py $P | grep -v '^  ' | tail -3 | cut -c1-300
