#!/bin/bash
# one.sh MUTDIR NAME PID [args]: a check on one mutant
d=/tmp/mo-$$; rm -rf "$d"; cp -a /repo "$d"
python3 - "$1/$2" "$d" <<'P'
import json,sys
m=json.load(open(sys.argv[1])); open(f"{sys.argv[2]}/comb_spec_searcher/{m['file']}","w").write(m["src"])
P
cd "$(dirname "$0")/../.."
VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$d timeout 900 bash check.sh "$3" "${@:4}" > /tmp/mo-$$.txt 2>&1
echo "$2 $3 rc=$? $(tail -1 /tmp/mo-$$.txt | cut -c1-200)"
rm -rf "$d"; mv /tmp/mo-$$.txt /tmp/mo.txt
