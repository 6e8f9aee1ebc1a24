#!/bin/bash
# plant.sh ID: confirm seeded/ID (applies, builds, tests pass, demo 0 / nonzero), then run the property's check on it
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo dirty; exit 2; }
git apply --check $d/patch.diff || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "base build fails"; exit 2; }
bash $d/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
git apply $d/patch.diff
if bash /opt/vp/build.sh >/tmp/plant.log 2>&1; then
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1; t=$?
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
print('tests:', {k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in r.items()})
P
  bash $d/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
  echo "demo unchanged=$r0 patched=$r1 ; $(tail -2 /tmp/plant.demo1)"
  if [ "$2" != nocheck ]; then
  for p in ${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do (cd /verif && python3 check.py $p | cut -c1-300); done; fi
else echo "patched build fails"; tail -5 /tmp/plant.log; fi
git checkout -q -- .
git status --porcelain
