#!/bin/bash
# tools/plant.sh ID [check...]: confirm a planted change (and run checks against it)
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build fails"; exit 2; }
bash $d/demo.sh >/tmp/plant-demo0 2>&1; echo "demo, unchanged: $?"
sleep 1.5; git apply $d/patch.diff || exit 2
trap 'sleep 1.2; git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/plant-build 2>&1 || echo "DOES NOT BUILD"
bash /opt/vp/test.sh /tmp/plant-test.json >/dev/null 2>&1
python3 -c "
import json; t=json.load(open('/tmp/plant-test.json')); b=json.load(open('/opt/vp/BASELINE.json'))
f=t['failed']; print('tests failed:', f if isinstance(f,int) else (len(f), f[:5]))"
bash $d/demo.sh >/tmp/plant-demo1 2>&1; echo "demo, changed: $?"; tail -2 /tmp/plant-demo1
cd /verif
for c in "$@"; do timeout 900 python3 check.py $c > /tmp/plant-$c 2>&1; echo "$c: $? $(grep -v '^VIOL' /tmp/plant-$c | head -1 | cut -c1-150)"; done
