#!/bin/bash
# fixtest.sh: build and test /repo's working tree in a private copy bound over /repo
SRC=${1:-/repo}; W=/tmp/plant/fix.$$; rm -rf "$W"; mkdir -p "$W"; cp -a "$SRC" "$W/repo"
unshare -rm bash -c "
  mount --bind $W/repo /repo || exit 9
  cd /repo && bash /opt/vp/build.sh > $W/build.log 2>&1; echo \$? > $W/build.rc
  ls -l _build/*/out/*stage1.elf | awk '{print \$5}' | tr '\n' ' '
  bash /opt/vp/test.sh $W/test.json > $W/test.log 2>&1"
python3 - "$W/test.json" "$(cat $W/build.rc)" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in ('pass','PASS',True))
    return set(x)
m=names(b)-names(r)
print('build', sys.argv[2], 'tests-ok' if not m else 'tests-MISSING %d %s'%(len(m),sorted(m)[:4]))
P
mkdir -p /tmp/w/fixbin; for a in arm riscv; do mkdir -p /tmp/w/fixbin/$a; cp $W/repo/_build/$a/out/shecc /tmp/w/fixbin/$a/; done
rm -rf "$W/repo"
