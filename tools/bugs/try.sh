#!/bin/bash
# try.sh ID...: build with patch, tests, demo, check
cd /repo
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
 bash /opt/vp/build.sh >/tmp/o/tb.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/o/tb.log; git checkout -- .; continue; }
 if [ -z "$NODEMO" ]; then
 bash /opt/vp/test.sh /tmp/o/tt.json >/dev/null 2>&1; np=$(grep -c . /tmp/o/tt.json); pass=$(python3 - <<'P'
import json; d=json.load(open('/tmp/o/tt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests:',{k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})
P
)
 rm -rf /tmp/o/dd; cp -r $d /tmp/o/dd; rm /tmp/o/dd/patch.diff /tmp/o/dd/meta.json
 timeout 300 bash /tmp/o/dd/demo.sh > /tmp/o/demo.$id.log 2>&1; dr=$?
 fi
 cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > /tmp/o/check.$id.log 2>&1; cr=$?; cd /repo
 git checkout -- .
 echo "$id $p demo=$dr check=$cr ($(( $(date +%s)-s ))s) $(grep -m1 VIOLATION /tmp/o/check.$id.log | cut -c1-120) | $pass | $(tail -1 /tmp/o/demo.$id.log | cut -c1-150)"
done
