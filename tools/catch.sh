#!/bin/bash
# catch.sh <id> [property...]: run the checks against a planted bug applied to /repo, undone straight afterwards.
id="$1"; shift
dir=/verif/seeded/$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$dir/patch.diff" || exit 2
trap 'git -C /repo checkout -- .' EXIT
for p in $props; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/run.sh $p >/tmp/seed/catch.$id.$p 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s )) s :: $(grep -m1 VIOLATION /tmp/seed/catch.$id.$p) $(grep -m1 ERROR /tmp/seed/catch.$id.$p)"
done
