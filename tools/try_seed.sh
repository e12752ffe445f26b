#!/bin/bash
# try_seed.sh ID [nochk]: validates one planted bug (applies it to /repo, builds, tests, demo; then the property's check; undoes it).
id=$1; d=/verif/seeded/$id; log=/tmp/seed.$id; mkdir -p $log
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > $log/rebuild 2>&1; }
cd /repo
if [ "$2" != chkonly ]; then
bash /opt/vp/build.sh > $log/build0 2>&1 || { echo "$id: clean build failed"; exit 2; }
bash $d/demo.sh > $log/demo0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap undo EXIT
bash /opt/vp/test.sh $log/out.json > $log/test 2>&1
python3 - $id $log/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[2]))
base=set(b['passed'] if 'passed' in b else b.get('stable',b.get('tests',[]))); miss=base-set(o['passed'])
print(sys.argv[1],'tests: baseline',len(base),'missing',len(miss),sorted(miss)[:4])
P
bash $d/demo.sh > $log/demo1 2>&1; r1=$?
echo "$id: demo clean rc=$r0, patched rc=$r1 ($(tail -1 $log/demo1))"
else git apply $d/patch.diff || exit 2; trap undo EXIT; fi
[ "$2" = nochk ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(date +%s); (cd /verif && SIM_BUILD=${SIM_BUILD:-/tmp/seedbuild} VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p) > $log/check 2>&1; rc=$?
echo "$id: check $p rc=$rc $(grep -E '^(VIOLATION|ERROR)' $log/check | head -1) $(( $(date +%s) - t ))s"; grep -vE '^(VIOLATION|built)' $log/check | tail -3
