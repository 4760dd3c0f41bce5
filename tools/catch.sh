#!/bin/bash
# tools/catch.sh ID [PROP...]: run the check of the bug's property (or the given ones) against
# the planted bug, in /repo, and undo it.
id=${1:?usage: catch.sh ID [PROP...]}; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in $props; do
  t=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p >/tmp/plant/check.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(grep -E '^VIOLATION' /tmp/plant/check.log | head -2 | tr '\n' ' ')"
done
