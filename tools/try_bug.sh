#!/bin/bash
# usage: try_bug.sh ID [nocheck]   confirm a seeded bug in a scratch copy and run its check on it
# prints: APPLY / TESTS / DEMO-CLEAN / DEMO-BUG / CHECK
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); bug=$here/seeded/$id
w=/tmp/pw-$id; rm -rf "$w"; cp -a /repo "$w"
cd "$w" || exit 2
git apply --check "$bug/patch.diff" || { echo "$id APPLY failed"; rm -rf "$w"; exit 2; }
export PYTHONDONTWRITEBYTECODE=1
rm -rf /tmp/demo-$id; mkdir /tmp/demo-$id; cp "$bug"/* /tmp/demo-$id/; rm -f /tmp/demo-$id/*.diff /tmp/demo-$id/meta.json
timeout 300 bash /tmp/demo-$id/demo.sh >/tmp/demo-$id/clean.txt 2>&1; c=$?
git apply "$bug/patch.diff"
timeout 300 bash /tmp/demo-$id/demo.sh >/tmp/demo-$id/bug.txt 2>&1; b=$?
rm -f test_readme.txt
PYTHONHASHSEED=0 timeout 400 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/demo-$id/junit.xml tests comb_spec_searcher test_readme.txt example.py >/tmp/demo-$id/tests.txt 2>&1
/opt/venv/bin/python - /tmp/demo-$id/junit.xml > /tmp/demo-$id/tres.txt <<'P'
import sys, xml.etree.ElementTree as E
r=E.parse(sys.argv[1]).getroot(); bad=[]; n=0
for c in r.iter('testcase'):
    n+=1
    if any(x.tag in('failure','error','skipped') for x in c): bad.append(c.get('classname')+'::'+c.get('name'))
print(n,'cases', 'bad:', bad)
P
echo "$id demo clean=$c bug=$b tests: $(cat /tmp/demo-$id/tres.txt) $(tail -1 /tmp/demo-$id/tests.txt)"
if [ "$2" != nocheck ]; then
  p=$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")
  s=$(date +%s)
  (cd $here && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$w timeout 900 bash check.sh $p > /tmp/demo-$id/check.txt 2>&1); rc=$?
  echo "$id CHECK $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/demo-$id/check.txt)"
fi
rm -rf "$w"
