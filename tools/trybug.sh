#!/bin/bash
# trybug.sh ID [check...]: applies a planted bug to /repo, builds, runs its demo and checks, undoes it
d=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); shift
cd /repo || exit 2
[ -z "$NOCLEAN" ] && { bash "$d/demo.sh" >/tmp/demo0.log 2>&1; echo "$d clean demo rc $?"; }
git apply "$d/patch.diff" || exit 2
if [ -z "$NODEMO" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; }; timeout 300 bash "$d/demo.sh" >/tmp/demo1.log 2>&1; echo "patched demo rc $?: $(grep -E 'DEMO|ERROR|FATAL' /tmp/demo1.log | tail -2)"; fi
for p in ${@:-$P}; do (cd /verif && timeout 900 python3 check.py $p 2>&1 | grep -v KNOWN | cut -c1-300 | tail -6); done
git -C /repo checkout -- .
