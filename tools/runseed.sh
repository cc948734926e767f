#!/bin/bash
# Maintenance aid: run checks against a planted bug in a scratch copy.  runseed.sh SEED CHECK...
S=$1; shift
R=/tmp/rs-$S; rm -rf "$R"; cp -a ${VERIF_REPO:-/repo} "$R"; git -C "$R" apply /verif/seeded/$S/patch.diff || exit 3
cd /verif
for c in ${@:-$(python3 -c "import json;print(json.load(open('seeded/$S/meta.json'))['property'])")}; do
 t0=$(date +%s); VERIF_REPO="$R" VERIF_SEED=1 VERIF_TIER=quick python3 check.py $c > /tmp/rs-$S.out 2>&1; rc=$?
 echo "$S $c rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/rs-$S.out)"
done
rm -rf "$R"
