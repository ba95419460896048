#!/bin/bash
# seedrun.sh ID... : confirm planted bugs against /repo (applies and reverts each patch)
exec 9>/tmp/w/repo.lock; flock 9
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id
  timeout 300 bash $d/demo.sh >/tmp/w/seed_$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
  timeout 300 bash $d/demo.sh >/tmp/w/seed_$id.demo 2>&1; b=$?
  P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif; timeout 900 python3 -m sa.check $P >/tmp/w/seed_$id.check 2>&1); k=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/w/seed_$id.build 2>&1; bu=$?
    bash /opt/vp/test.sh /tmp/w/seed_$id.json >/tmp/w/seed_$id.test 2>&1
    t=$(python3 - <<EOF
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/seed_$id.json'))
def lst(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return x[k]
    return x
p=set(r['passed']) if 'passed' in r else {k for k,v in r.items() if v=='passed'}
base=lst(b)
base=set(base if not isinstance(base,dict) else base)
print('build=$bu missing=%d'%len(base-p), sorted(base-p)[:3])
EOF
)
  fi
  git checkout -q -- .
  echo "$id prop=$P demo_clean=$c demo_bug=$b check=$k tests: $t :: $(grep -v VIOLATION /tmp/w/seed_$id.check | head -1 | cut -c1-150)"
done
