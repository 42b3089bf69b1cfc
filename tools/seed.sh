#!/bin/bash
# tools/seed.sh <id> [check]: does seeded/<id> count, and does its property's quick check catch it?
# Applies the patch in /repo, runs build, tests, demo and the check, and undoes it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != check ]; then
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
  ( time timeout 300 bash $d/demo.sh ) >/tmp/seed_demo_clean.log 2>&1; c=$?
  echo "$id clean demo rc=$c $(grep real /tmp/seed_demo_clean.log)"
fi
git apply $d/patch.diff || exit 2
if [ "$2" != check ]; then
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo BUILD FAILS; tail -30 /tmp/seed_build.log; exit 2; }
  bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/seed_t.json'))
s=json.dumps(t)
p=t.get('passed',t) ; bad=[x for x in b if x not in p]
print("tests:", "ok" if not bad else bad)
P
  ( time timeout 300 bash $d/demo.sh ) >/tmp/seed_demo.log 2>&1; c=$?
  echo "$id patched demo rc=$c $(grep real /tmp/seed_demo.log) $(grep -v '^$' /tmp/seed_demo.log | grep -v -e real -e user -e sys| tail -1)"
fi
t0=$(date +%s)
VERIF_SEED=1 VERIF_TIER=quick /verif/bin/check $prop quick >/tmp/seed_check.log 2>&1; c=$?
echo "$id check $prop rc=$c $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/seed_check.log)"
