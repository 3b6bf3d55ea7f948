#!/bin/bash
# try_seeded.sh ID [PROPERTY] : applies seeded/ID/patch.diff to /repo, runs build, tests, demo and the check, undoes it.
# NOTEST=1 skips the tests; NODEMO=1 the demo.
cd /repo || exit 2
id="$1"; s="/verif/seeded/$id"
prop="${2:-$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")}"
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
demo0=-; demo1=-; tests=-
if [ -z "$NODEMO" ]; then bash "$s/demo.sh" >/tmp/demo0.log 2>&1; demo0=$?; fi
git apply "$s/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 2; }
if bash /opt/vp/build.sh >/tmp/build.log 2>&1; then
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
    tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    for k in ('stable_pass','stable','passed','pass'):
        if k in x: return set(x[k])
    return set()
m=names(b)-names(o)
print('ok' if not m else 'FAIL:'+','.join(sorted(m))[:150])
P
)
  fi
  if [ -z "$NODEMO" ]; then timeout 300 bash "$s/demo.sh" >/tmp/demo1.log 2>&1; demo1=$?; fi
  t0=$(date +%s)
  VERIF_SEED="${VERIF_SEED:-1}" /verif/check.sh "$prop" quick > /tmp/check.log 2>&1; rc=$?
  t1=$(date +%s)
  v=$(grep -m1 '^VIOLATION' /tmp/check.log)
  echo "$id: demo clean=$demo0 patched=$demo1 tests=$tests check=$rc ($((t1-t0)) s) $v"
  grep -m1 -A3 '^VIOLATION' /tmp/check.log | tail -n +2 | cut -c1-240
else
  echo "$id: DOES NOT BUILD"; tail -20 /tmp/build.log
fi
git checkout -q -- .
