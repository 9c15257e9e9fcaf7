#!/bin/bash
# runseeds.sh [ID…]: apply each kept change to a scratch copy of /repo and run its property's check against that copy
# (development aid; uses govc check -repo)
. /verif/env.sh
(cd /verif/govc && go build -o /tmp/govc .) || exit 2
R=$(mktemp -d /tmp/seedrun.XXXX); cp -a /repo/. $R/
L="$*"; [ -z "$L" ] && L=$(ls /verif/seeded)
for id in $L; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $R apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=1 /tmp/govc check -repo $R -prop $P -evidence /tmp/seedev 2>&1); rc=$?
  echo "$id $P rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep VIOLATION | cut -c1-150) $(grep -h -A2 'REPLAY-FAIL' /tmp/seedev/replay-$P.txt 2>/dev/null | head -1 | cut -c1-160)"
  git -C $R checkout -q -- .
done
rm -rf "$R"
