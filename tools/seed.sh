#!/bin/bash
# seed.sh ID [--notests]: confirm a planted change: demo passes without it, fails with it, tests still pass, and report which of its property's checks catch it.
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
res="$id [$p]"
if [ "$2" != --fast ]; then
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { echo "$id base build failed"; exit 2; }
bash $d/demo.sh >/tmp/w/demo0.log 2>&1; res="$res demo-clean=$?"
fi
git apply $d/patch.diff || { echo "$id patch does not apply"; exit 2; }
if [ "$2" != --fast ]; then
if bash /opt/vp/build.sh >/tmp/w/b.log 2>&1; then
  bash $d/demo.sh >/tmp/w/demo1.log 2>&1; res="$res demo-patched=$?"
  if [ "$2" != --notests ]; then
    bash /opt/vp/test.sh /tmp/w/seed-out.json >/tmp/w/t.log 2>&1
    res="$res tests-missing=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/w/seed-out.json'))
m=set(b['stable'])-set(o['passed']);print(len(m),sorted(m)[:3] if m else '')")"
  fi
else res="$res BUILD-FAILED"; fi
fi
cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run.py $p >/tmp/w/chk.out 2>/tmp/w/chk.err; rc=$?
res="$res check-rc=$rc $(grep -c VIOLATION /tmp/w/chk.out) $(tail -1 /tmp/w/chk.out | cut -c1-150)"
git -C /repo checkout -- .
echo "$res"
