#!/bin/bash
# tools/seed.sh ID [check...]: confirm a planted bug (builds, tests pass, demo fails only with it)
# and run its property's check (or the given ones) against it.
ID=$1; shift
B=/verif/seeded/$ID
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash $B/demo.sh >/tmp/demo.out 2>&1 || { echo "$ID: demo fails on the unchanged tree"; tail -20 /tmp/demo.out; exit 1; }
fi
git apply $B/patch.diff || exit 1
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$ID: does not build"; tail -20 /tmp/build.out; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1
python3 - <<'PY' || { echo "$ID: tests fail"; exit 1; }
import json,sys
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[x for x in b.get('stable',b.get('tests',b)) if x not in t.get('passed',[])]
sys.exit(1 if bad else 0)
PY
bash $B/demo.sh >/tmp/demo.out 2>&1 && { echo "$ID: demo passes with the bug"; exit 1; }
fi
for c in ${@:-$P}; do
  (cd /verif && python3 checks/run.py $c >/tmp/check.out 2>&1; r=$?; echo "$ID $c exit=$r $(grep -m1 rejected /tmp/check.out)")
done
