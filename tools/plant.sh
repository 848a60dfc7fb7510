#!/bin/bash
# plant.sh <seeded id> [--notest]: confirm one planted bug in the scratch clone /tmp/sb/repo (never in /repo).
# prints: demo on clean / build / tests / demo with patch / check result
S=/verif/seeded/$1
R=/tmp/sb/repo
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C $R fetch -q origin && git -C $R reset -q --hard origin/HEAD 2>/dev/null || git -C $R reset -q --hard FETCH_HEAD
git -C $R clean -qfd -e _build
(cd $R && timeout 300 bash $S/demo.sh >/tmp/sb/demo0.log 2>&1); d0=$?
git -C $R apply $S/patch.diff || { echo "$1: PATCH DOES NOT APPLY"; exit 1; }
miss=skipped
if [ "$2" != "--notest" ]; then
  bash /tmp/sb/build.sh >/tmp/sb/b.log 2>&1 || { echo "$1: BUILD FAILS"; tail -5 /tmp/sb/b.log; git -C $R checkout -q -- .; exit 1; }
  bash /tmp/sb/test.sh /tmp/sb/t.json >/tmp/sb/t.log 2>&1
  miss=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sb/t.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
print(sorted(names(b)-names(r)))
P
)
fi
(cd $R && timeout 300 bash $S/demo.sh >/tmp/sb/demo1.log 2>&1); d1=$?
(cd /verif && VERIF_REPO=$R VERIF_SEED=${VERIF_SEED:-1} python3 run.py $prop quick >/tmp/sb/check_$1.log 2>&1); ck=$?
git -C $R checkout -q -- .
echo "$1 $prop demo_clean=$d0 demo_bug=$d1 tests_missing=$miss check_exit=$ck ($(grep -h '^law\|^tag' /tmp/sb/check_$1.log | tr -s ' ' | tr '\n' ' '))"
