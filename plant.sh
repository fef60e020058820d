#!/bin/bash
# usage: plant.sh ID  - confirms /verif/seeded/ID against /repo (applies, builds, keeps the tests, demo passes
# without and fails with it), then runs the check of its property on it.
d=/verif/seeded/$1
. /opt/vp/env.sh
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/plant.build 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant.json'))
print([t for t in b['stable'] if t not in o['passed']])")
bash $d/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$(date +%s)
if [ -z "$2" ]; then /verif/check.sh $prop >/tmp/plant.check 2>&1; rc=$?; fi
git checkout -q -- .
echo "$1 [$prop]: build=$rb missing=$miss demo-clean=$r0 demo-bug=$r1 check=$rc ($(( $(date +%s)-s ))s) $(grep -v VIOLATION /tmp/plant.check | head -2 | cut -c1-200)"
