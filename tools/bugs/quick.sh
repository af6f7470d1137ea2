#!/bin/bash
# quick.sh ID...: demo on the clean tree and on the patched one
for i in "$@"; do cd /; rm -rf /tmp/q; git clone -q /repo /tmp/q; cd /tmp/q; bash /verif/seeded/$i/demo.sh >/tmp/q.c 2>&1; c=$?; git apply /verif/seeded/$i/patch.diff;  bash /verif/seeded/$i/demo.sh > /tmp/q.b 2>&1; b=$?; echo "== $i clean=$c bug=$b"; [ $c = 0 ] || tail -5 /tmp/q.c; tail -1 /tmp/q.b | cut -c1-250; done
