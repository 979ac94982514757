#!/bin/bash
# seedtest.sh <seed id> [check ids...]: applies /verif/seeded/<id>/patch.diff to a scratch copy of
# /repo (bind mounted over /repo in a mount namespace of its own), builds, runs the stable tests,
# the demonstration before and after, and the checks (default: the seed's own property).
# NOTEST=1 skips the tests, NOCHECK=1 skips the checks.
id=$1; shift
s=/verif/seeded/$id; [ -d $s ] || s=/verif/seeds_more/$id
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
w=/tmp/seed/$id
[ -d "$w" ] && find "$w" -mindepth 1 -delete
mkdir -p $w/repo $w/verif
cp -a /repo/. $w/repo/
cp -a /verif/run.py /verif/checks.py /verif/src /verif/tools /verif/*.txt /verif/*.jsonl /verif/MANIFEST.json $w/verif/
cp -a $s $w/seed
export s w props id
unshare -m bash -c '
mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /repo
bash /opt/vp/build.sh >$w/build0.log 2>&1 || { echo "$id: clean build FAILED"; exit 1; }
bash $w/seed/demo.sh >$w/demo0.log 2>&1; echo "$id: demo clean rc=$?"
git apply $w/seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -n "$NOTEST" ]; then bash /opt/vp/build.sh >$w/build.log 2>&1 || echo "$id: build FAILED"
else
 bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1
 python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$w/t.json"))
st=b.get("stable") or b.get("passed") or b.get("tests") or b
p=set(t["passed"]); m=[x for x in st if x not in p]
print("$id: tests passed %d, stable missing %d %s"%(len(p),len(m),m[:3]))
PY
fi
timeout 300 bash $w/seed/demo.sh >$w/demo1.log 2>&1; echo "$id: demo patched rc=$?"
[ -n "$NOCHECK" ] && exit 0
for p in $props; do
 t0=$(date +%s)
 cd /verif; VERIF_SEED=1 VERIF_TIER=${VERIF_TIER:-quick} timeout 900 python3 run.py $p >$w/check.$p.log 2>&1; rc=$?
 echo "$id: check $p rc=$rc $(( $(date +%s)-t0 )) s $(grep -m1 VIOLATION $w/check.$p.log)"
done
'
