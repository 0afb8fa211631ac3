#!/bin/bash
# developer tool: try_seed.sh ID [CHECKS|-] [notest] -- confirm one planted bug in a scratch copy of /repo and /verif, bound over the
# real paths in a private mount namespace: builds; tests pass; demo fails with and passes without; what the check says about it.
id=$1; checks=$2; nt=$3
w=/tmp/seedwk.$id; mkdir -p $w /tmp/seedlog
cp -a ${SEED_SRC:-/repo} $w/repo; mkdir $w/verif
(cd /verif; cp -a $(ls -A | grep -v -x -e .cache -e .git) $w/verif/); cp -a /verif/.git $w/verif/.git 2>/dev/null; ln -s /tmp/vcache $w/verif/.cache
[ -e /tmp/vcache ] || { cp -a /verif/.cache /tmp/vcache; }
export id checks nt w OMP_WAIT_POLICY=passive
unshare -m bash -c '
mount --bind $w/repo /repo; mount --bind $w/verif /verif
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
cd /repo
L=$w/log
if [ "$nt" != notest ]; then
  bash /opt/vp/build.sh > $L.b 2>&1
  timeout 300 bash $d/demo.sh > $L.d0 2>&1; r=$?; echo "demo unchanged rc=$r (want 0)"; [ $r = 0 ] || tail -5 $L.d0
fi
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
if [ "$nt" != notest ]; then
  bash /opt/vp/build.sh > $L.b 2>&1 || { echo BUILD FAILED; tail -20 $L.b; exit 8; }
  timeout 300 bash $d/demo.sh > $L.d1 2>&1; echo "demo patched rc=$? (want nonzero)"; tail -3 $L.d1
  bash /opt/vp/test.sh $w/t.json > $L.t 2>&1
  python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; t=json.load(open(\"$w/t.json\"))
miss=sorted(set(b)-set(t[\"passed\"]))
print(\"tests: %d stable, lost %d: %s\"%(len(b),len(miss),miss[:5]))"
fi
if [ "$checks" != - ]; then for c in ${checks:-$prop}; do
  s=$(date +%s); cd /verif; python3 run.py $c > $L.c 2>&1; rc=$?
  echo "check $c rc=$rc (want 1) in $(( $(date +%s)-s )) s"; grep -m2 VIOLATION $L.c; [ $rc = 1 ] || tail -5 $L.c; mkdir -p /tmp/seedlog; cp $L.c /tmp/seedlog/$id.$c.log
done; fi
' 2>&1 | sed "s/^/[$id] /" | tee /tmp/seedlog/$id.txt
rm -rf /tmp/seedwk.$id
