#!/bin/bash
# developer helper: run checks verbosely, compact output
cd /verif
for p in "$@"; do timeout ${T:-800} env VERIF_VERBOSE=1 VERIF_LEARN=1 python3 check.py $p > /tmp/v.$p.log 2>&1; grep -E "^unit" /tmp/v.$p.log | grep -v ' ok ' | cut -c1-${W:-260} | head -6; grep -v "^unit" /tmp/v.$p.log | cut -c1-${W:-260} | head -${N:-14}; done
