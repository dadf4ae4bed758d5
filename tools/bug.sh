#!/bin/bash
# bash tools/bug.sh ID...: runs the quick check of each planted bug's property against /repo with the bug applied (in a scratch copy).
for id in "$@"; do
 p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 T=$(mktemp -d /tmp/bug.XXXXXX); cp -a /repo "$T/repo"; git -C "$T/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$T"; continue; }
 s=$(date +%s); SIM_REPO="$T/repo" bash /verif/check.sh $p quick > "$T/out" 2>&1; r=$?
 echo "$id $p exit=$r $(( $(date +%s)-s ))s $(grep -m1 'VIOLATION property' "$T/out")"; [ $r = 1 ] || tail -3 "$T/out"
 rm -rf "$T"
done
