#!/bin/bash
# tools/plant.sh ID: confirm a planted bug (/verif/seeded/ID) in a scratch copy of /repo:
# the demonstration passes without the patch, the patch applies and builds, the stable
# tests still pass with it, and the demonstration then fails.
id=${1:?usage: plant.sh ID}
d=/verif/seeded/$id
s=/tmp/plant/repo
[ -d $s ] || { mkdir -p /tmp/plant; cp -a /repo $s; }
cd $s || exit 3
git checkout -q -- . ; git clean -qfd; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $d/demo.sh >/tmp/plant/demo0.log 2>&1 || { echo "$id: demo fails unpatched"; tail -20 /tmp/plant/demo0.log; exit 1; }
git apply --check $d/patch.diff || { echo "$id: does not apply"; exit 1; }
git apply $d/patch.diff
sed 's#cd /repo#cd /tmp/plant/repo#' /opt/vp/test.sh >/tmp/plant/test.sh
bash /tmp/plant/test.sh /tmp/plant/out.json >/tmp/plant/test.log 2>&1
python3 - <<'P' || { echo "$id: stable tests break"; grep -E "^error|FAILED|failed" /tmp/plant/test.log | head; git checkout -q -- .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant/out.json'))
def P(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k])
    return set(d)
m=P(b)-P(o)
if m: print(sorted(m)[:10]); sys.exit(1)
P
if bash $d/demo.sh >/tmp/plant/demo1.log 2>&1; then echo "$id: demo passes with the patch"; git checkout -q -- .; exit 1; fi
git checkout -q -- .
echo "$id: counts ($(tail -1 /tmp/plant/demo1.log | cut -c1-150))"
