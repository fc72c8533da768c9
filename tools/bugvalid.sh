#!/bin/bash
# bugvalid.sh ID... : in /repo itself: demo passes clean; with the patch it builds, the stable tests pass and the demo fails; undone afterwards
cd /repo || exit 1
bash /opt/vp/build.sh > /tmp/bv-b.txt 2>&1
declare -A C; for i in "$@"; do L=/tmp/bv; rm -rf /tmp/bv; cp -r /verif/seeded/$i $L; rm -f $L/*.diff $L/meta.json; bash $L/demo.sh > /tmp/bv-c.txt 2>&1; C[$i]=$?; done
for i in "$@"; do
  S=$(cd /verif/seeded/$i && pwd); L=/tmp/bv; rm -rf /tmp/bv; cp -r $S $L; rm -f $L/*.diff $L/meta.json
  [ -n "$(git status --porcelain)" ] && { echo dirty; exit 1; }
  git apply $S/patch.diff || { echo "$i no apply"; continue; }
  bash /opt/vp/build.sh > /tmp/bv-b.txt 2>&1; b=$?
  bash $L/demo.sh > /tmp/bv-d.txt 2>&1; d=$?
  bash /opt/vp/test.sh /tmp/bv-t.json > /tmp/bv-tt.txt 2>&1
  git checkout -q -- .
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/bv-t.json'))
st=b.get('stable') or b.get('tests') or b.get('passed') or b
p=set(r.get('passed',[]))
m=[x for x in st if x not in p]
print(len(m), m[:3])
P
)
  echo "$i clean=${C[$i]} build=$b demo=$d tests-missing=$t"
done
bash /opt/vp/build.sh > /tmp/bv-b.txt 2>&1
git status --short | head -3
