#!/bin/bash
# seedtest.sh ID...: confirms planted changes against /repo (applied and undone) and runs the property's check.
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/sd.$id 2>&1; r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.$id 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/st.json'))
s=json.dumps(o)
P=set(o.get('passed',o.get('pass',[])))
print('ok' if all(x in P for x in b) else 'TESTFAIL')")
  bash $d/demo.sh >/tmp/sd1.$id 2>&1; r1=$?
  out=""
  for q in $p ${PROPS:-}; do
    timeout 300 bin/radocheck -p $q >/tmp/sc.$id 2>&1; c=$?
    out="$out $q=$c"
  done
  git -C /repo checkout -q -- .
  echo "$id build=$b tests=$t demo=$r0/$r1 check:$out"
done
