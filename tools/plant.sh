#!/bin/bash
# plant.sh ID [PROP]: verifies a planted bug: clean demo, patch, build, tests, demo, and (with PROP) the check.
# Applies the patch in /repo and always undoes it.
ID=$1; PROP=${2:-$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
S=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "clean build failed"; exit 2; }
cp -r "$S" /tmp/plant_demo.$$; rm -f /tmp/plant_demo.$$/*.diff /tmp/plant_demo.$$/meta.json
D=/tmp/plant_demo.$$
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/plant.demo0 2>&1 ); echo "demo clean rc=$? (want 0)"
git -C /repo apply "$S/patch.diff" || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1; echo "build rc=$?"
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
st=b.get('stable') or b.get('passed') or b.get('stable_tests')
p=set(r['passed']); print('tests: stable', len(st), 'missing', [t for t in st if t not in p])
P
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/plant.demo1 2>&1 ); echo "demo patched rc=$? (want nonzero)"
rm -rf "/tmp/plant_demo.$$"
if [ "$PROP" != none ]; then
  cd /verif && time VERIF_SEED=${VERIF_SEED:-1} bash check.sh $PROP --tier quick 2>&1 | tail -4
fi
