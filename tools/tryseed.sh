#!/bin/bash
# tryseed.sh NAME [nocheck]: development helper. Applies a planted change to /repo, builds, tests,
# runs the demonstration and the property's quick check, and undoes the change.
N=$1; D=/verif/seeded/$N; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/bugs/build.log 2>&1 || { echo "$N: BUILD FAILS"; tail -20 /tmp/bugs/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bugs/t.json >/tmp/bugs/test.log 2>&1
T=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/bugs/t.json'))
def ok(x):
    r=x.get('passed', x.get('stable', x.get('tests')))
    return set(r if not isinstance(r,dict) else [k for k,v in r.items() if v in ('pass','passed',True)])
f=lambda o: o
print('tests', len(ok(t)), 'of', len(ok(b)), 'missing', sorted(ok(b)-ok(t))[:3])
P
)
bash $D/demo.sh >/tmp/bugs/demo.log 2>&1; R=$?
echo "$N: $T; demo rc=$R $(grep FAIL /tmp/bugs/demo.log | head -1)"
if [ "$2" != nocheck ]; then
  for p in ${CHK:-$P}; do
  S=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py $p --tier quick >/tmp/bugs/check.log 2>&1; C=$?
  echo "   check $p rc=$C $(($(date +%s)-S))s $(grep VIOLATION /tmp/bugs/check.log | head -1)"
  done
fi
