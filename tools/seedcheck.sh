#!/bin/bash
# usage: tools/seedcheck.sh ID [PROP...]  run checks against a planted bug applied in /repo, then undo
id=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
for p in $P; do (cd /verif; timeout 900 ./check $p > /tmp/seedcheck.out 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/seedcheck.out)"; [ $rc = 1 ] || tail -3 /tmp/seedcheck.out); done
