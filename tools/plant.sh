#!/bin/bash
# plant.sh ID...  - confirms planted bugs in a scratch copy of /repo and says whether the property's check sees them
here=$(cd "$(dirname "$0")/.." && pwd)
S=${SCRATCH:-/tmp/pb}
[ -d $S ] || cp -a /repo $S
sed "s#/repo#$S#g" /opt/vp/build.sh > $S.build.sh
sed "s#/repo#$S#g" /opt/vp/test.sh > $S.test.sh
stable() { python3 - "$1" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k] if isinstance(x[k],list) else [t for t,v in x[k].items() if v in ('pass','passed',True)])
print('missing', sorted(passed(b)-passed(r))[:5], len(passed(b)))
P
}
for id in "$@"; do
  d=$here/seeded/$id
  git -C $S checkout -q -- . && git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $S.build.sh >/tmp/pb.log 2>&1 || { echo "$id: base does not build"; continue; }
  cp -r $d /tmp/pbdemo; rm -f /tmp/pbdemo/*.diff /tmp/pbdemo/meta.json
  sed -i "s#/repo#$S#g" /tmp/pbdemo/demo.sh
  (cd $S && timeout 300 bash /tmp/pbdemo/demo.sh >/tmp/pb.demo0 2>&1); d0=$?
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; rm -rf /tmp/pbdemo; continue; }
  bash $S.build.sh >/tmp/pb.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -20 /tmp/pb.log; rm -rf /tmp/pbdemo; git -C $S checkout -q -- .; continue; }
  bash $S.test.sh /tmp/pb.json >/dev/null 2>&1
  t=$(stable /tmp/pb.json)
  (cd $S && timeout 300 bash /tmp/pbdemo/demo.sh >/tmp/pb.demo1 2>&1); d1=$?
  out=$(HSIM_REPO=$S bash $here/check.sh $prop quick 2>&1); rc=$?
  echo "$id $prop tests[$t] demo $d0/$d1 check rc $rc $(echo "$out" | grep -m1 'violation at' | cut -c1-200)"
  [ $d0 = 0 ] || { echo "  demo fails on the base:"; tail -5 /tmp/pb.demo0; }
  [ $d1 != 0 ] || { echo "  demo passes with the bug:"; tail -5 /tmp/pb.demo1; }
  rm -rf /tmp/pbdemo
  git -C $S checkout -q -- .
done
