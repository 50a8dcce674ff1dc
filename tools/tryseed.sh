#!/bin/bash
# developer tool: tryseed.sh ID... : applies each planted bug to a scratch copy of /repo and runs the check of its property (C=id: another check) on the copy
cd /verif
T=/tmp/trs; rm -rf /tmp/trs; mkdir -p $T; git -C /repo archive HEAD | tar x -C $T; (cd $T && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x)
for s in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
 git -C $T apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
 st=$(date +%s)
 out=$(VERIF_REPO=$T VERIF_EVIDENCE=/tmp/trs.ev VERIF_SEED=1 VERIF_TIER=quick timeout 900 nice -n 5 python3 check.py ${C:-$p} 2>&1); rc=$?
 git -C $T checkout -q -- .
 echo "$s [$p] rc=$rc $(( $(date +%s)-st ))s $(echo "$out" | grep -E '^(FAIL|VIOLATION)' | cut -c1-230 | head -3 | tr '\n' ' ') $(echo "$out" | grep -c '^failed obl') obl $(echo "$out" | grep -E '^(note)' | head -1| cut -c1-120)"
done
rm -rf /tmp/trs
