#!/bin/bash
# check_bug.sh ID [check args]: only the property's check on a patched copy
id=$1; shift; here=$(cd "$(dirname "$0")/.." && pwd); bug=$here/seeded/$id
w=/tmp/cb-$id; rm -rf "$w"; cp -a /repo "$w"; (cd "$w" && git apply "$bug/patch.diff") || exit 2
p=$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")
s=$(date +%s)
(cd $here && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$w timeout 900 bash check.sh $p "$@" > /tmp/cb-$id.txt 2>&1); rc=$?
echo "$id CHECK $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/cb-$id.txt)"
rm -rf "$w"
