#!/bin/bash
# plant.sh ID : judge the planted bug /verif/seeded/ID against /repo: it applies,
# builds, passes the stable tests, its demonstration passes without and fails
# with it; then run the check of its property. /repo is left as it was.
# plant.sh ID quick : skip the tests and the demonstration, run the check only.
id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != quick ]; then
  bash $s/demo.sh > /tmp/demo0.log 2>&1; r=$?
  [ $r = 0 ] || { echo "$id: demo fails ($r) on the unchanged tree"; tail -5 /tmp/demo0.log; exit 1; }
fi
git apply --check $s/patch.diff && git apply $s/patch.diff || { echo "$id: does not apply"; exit 1; }
if [ "$2" != quick ]; then
  bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo "$id: does not build"; grep -A8 '^error' /tmp/b.log; exit 1; }
  bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
  python3 - <<'P' || exit 1
import json,sys
a=json.load(open('/opt/vp/BASELINE.json'))['stable']; b=json.load(open('/tmp/out.json'))
m=[x for x in a if x not in b['passed']]
if m: print('stable tests missing',m); sys.exit(1)
P
  git diff --name-only | grep -v '\.rs$'
  bash $s/demo.sh > /tmp/demo1.log 2>&1; r=$?
  [ $r != 0 ] || { echo "$id: demo passes with the bug"; exit 1; }
  grep -q '^error' /tmp/demo1.log && { echo "$id: demo does not compile"; grep -A5 '^error' /tmp/demo1.log; exit 1; }
fi
cd /verif; t=$(date +%s)
VERIF_SEED=1 VERIF_TIER=quick ./check.sh check $p quick > /tmp/plant.log 2>&1; r=$?
echo "$id: property $p check exit $r after $(( $(date +%s)-t )) s: $(grep -m1 VIOLATION /tmp/plant.log)"
grep -A2 -m1 -iE "class|message|what" /tmp/plant.log | head -4
