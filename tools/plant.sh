#!/bin/bash
# plant.sh ID [notest]: build, test, demo and check one seeded change in a private
# mount namespace (a scratch copy bound over /repo; the real /repo is untouched).
id=$1; mode=$2; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/plant/$id; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
( cd "$W/repo" && git apply "$S/patch.diff" ) || { echo "$id: patch does not apply"; exit 1; }
export VERIF_EVIDENCE_DIR=$W/ev
unshare -rm bash -c "
  mount --bind /repo $W 2>/dev/null; umount $W 2>/dev/null
  cd /repo && timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; echo \$? > $W/demo0.rc
  mount --bind $W/repo /repo || exit 9
  cd /repo && bash /opt/vp/build.sh > $W/build.log 2>&1; echo \$? > $W/build.rc
  timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; echo \$? > $W/demo1.rc
  [ '$mode' = notest ] || bash /opt/vp/test.sh $W/test.json > $W/test.log 2>&1
  cd /verif && timeout 900 python3 check.py $prop > $W/check.log 2>&1; echo \$? > $W/check.rc
"
t=skipped
[ "$mode" = notest ] || t=$(python3 - "$W/test.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in ('pass','PASS',True))
    return set(x)
m=names(b)-names(r)
print('tests-ok' if not m else 'tests-MISSING %d %s'%(len(m),sorted(m)[:2]))
P
)
echo "$id prop=$prop build=$(cat $W/build.rc) demo: base=$(cat $W/demo0.rc) patched=$(cat $W/demo1.rc) $t check=$(cat $W/check.rc) $(grep -m1 VIOLATION $W/check.log | cut -c1-60)"
rm -rf "$W/repo"
