#!/bin/bash
# bugcheck.sh ID... : runs the property's quick check against a scratch clone with the planted bug
for i in "$@"; do
  rm -rf /tmp/bugw; git clone -q /repo /tmp/bugw; git -C /tmp/bugw apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  VS_REPO=/tmp/bugw VS_BUILD=${VS_BUILD:-/tmp/vsb} timeout 880 python3 /verif/vs.py $p quick > /tmp/bug-$i.txt 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -c VIOLATION /tmp/bug-$i.txt) $(grep '\[' /tmp/bug-$i.txt | grep -v VIOL | head -1 | cut -c1-180) $(grep -m1 PROBLEM /tmp/bug-$i.txt | cut -c1-300) $(grep -o 'wall=[0-9.]*' /tmp/bug-$i.txt)"
done
rm -rf /tmp/bugw
