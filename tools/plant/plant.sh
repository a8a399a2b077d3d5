#!/bin/bash
# plant.sh ID : verify seeded/ID in /tmp/rw
ID=$1; S=/verif/seeded/$ID; R=/tmp/rw
git -C $R checkout -q -- . ; git -C $R clean -fdq -e target
rm -rf /tmp/demo.$ID; mkdir /tmp/demo.$ID; cp -r $S/. /tmp/demo.$ID; rm -f /tmp/demo.$ID/*.diff /tmp/demo.$ID/meta.json
bash /tmp/rwt/build.sh >/tmp/rwt/b0.log 2>&1 || echo BASEBUILD-FAIL
(cd $R && bash /tmp/demo.$ID/demo.sh) >/tmp/rwt/d0.log 2>&1; a=$?
git -C $R apply $S/patch.diff || { echo "$ID apply FAIL"; exit; }
bash /tmp/rwt/build.sh >/tmp/rwt/b1.log 2>&1 || { echo "$ID build FAIL"; tail -20 /tmp/rwt/b1.log; }
(cd $R && bash /tmp/demo.$ID/demo.sh) >/tmp/rwt/d1.log 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then bash /tmp/rwt/test.sh /tmp/rwt/out.json >/tmp/rwt/t.log 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/rwt/out.json'))
print("tests", len(set(b)-set(o['passed'])),"lost", sorted(set(b)-set(o['passed']))[:3])
P
); fi
git -C $R checkout -q -- .
rm -rf /tmp/demo.$ID
echo "$ID demo clean=$a patched=$b $t"; tail -2 /tmp/rwt/d1.log | cut -c1-200
