#!/bin/bash
# catch.sh ID [props...]: run checks against /repo with seeded/ID applied
ID=$1; shift; S=/verif/seeded/$ID
[ -n "$(git -C /repo status --short)" ] && { echo dirty; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $P; do (cd /verif && python3 check.py $p >/tmp/rwt/c.$p.log 2>&1; echo "$ID $p rc=$?"; grep -m2 VIOLATION /tmp/rwt/c.$p.log | cut -c1-220); done
git -C /repo checkout -q -- .
