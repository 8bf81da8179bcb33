#!/bin/bash
# seedrun.sh <seed id> [check ids...]: run checks against a scratch copy of /repo with the planted change
S=$1; shift
W=/tmp/seedw/$S; mkdir -p /tmp/seedw; cp -a /repo $W 2>/dev/null || { echo exists; exit 9; }
git -C $W checkout -q -- . ; git -C $W apply /verif/seeded/$S/patch.diff || echo PATCHFAIL
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")}
for p in $P; do
 T=/tmp/seedw/v_${S}_$p; mkdir -p $T; cp -r /verif/*.py /verif/engine /verif/checks /verif/drivers /verif/known_findings.txt $T/ 
 ( cd $T; s=$(date +%s); VERIF_REPO=$W timeout 900 python3 check.py $p >out.txt 2>err.txt; rc=$?; echo "== $S $p rc=$rc $(($(date +%s)-s))s"; tail -3 out.txt | cut -c1-400; tail -3 err.txt|cut -c1-300 )
 rm -rf /tmp/seedw/v_${S}_$p
done
rm -rf /tmp/seedw/$S
