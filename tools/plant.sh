#!/bin/bash
# usage: plant.sh ID [nocheck]  -- /repo carries the change (or seeded/ID/patch.diff exists)
id=$1; d=/verif/seeded/$id
cd /repo
if ! git diff --quiet; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 9; fi
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/test.sh /tmp/plant.$id.json > /tmp/plant.$id.log 2>&1
python3 - /tmp/plant.$id.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
s=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in s if t not in r['passed']]
print('stable tests missing:',miss)
P
timeout 300 bash $d/demo.sh > /tmp/plant.$id.demo 2>&1; echo "demo patched rc=$? (want !=0)"; tail -3 /tmp/plant.$id.demo
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != nocheck ]; then
  (cd /verif; s=$(date +%s); timeout 900 python3 check.py $p quick > /tmp/plant.$id.check 2>&1; echo "check $p rc=$? ($(( $(date +%s)-s )) s)"; grep VIOLATION /tmp/plant.$id.check | head -2)
fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh > /tmp/plant.$id.demo0 2>&1; echo "demo clean rc=$? (want 0)"; tail -2 /tmp/plant.$id.demo0
