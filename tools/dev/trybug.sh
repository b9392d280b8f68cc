#!/bin/bash
# trybug.sh ID [tier]: runs the property's check on a worktree with the bug
I=$1; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$I/meta.json'))['property'])")
W=/tmp/wt_$I; git -C /repo worktree add -f --detach $W HEAD -q 2>/dev/null; git -C $W apply /verif/seeded/$I/patch.diff
cd /verif; S=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_REPO=$W python3 run.py ${CHECK:-$P} ${2:-quick} > /tmp/try_$I.log 2>&1; R=$?
echo "$I ${CHECK:-$P} exit $R $(($(date +%s)-S))s $(grep -m1 VIOLATION /tmp/try_$I.log)"
git -C /repo worktree remove --force $W
