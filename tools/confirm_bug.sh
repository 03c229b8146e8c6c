#!/bin/bash
# confirm_bug.sh ID [CHECK...]: confirm a planted bug in a scratch copy of /repo
# (patch applies, tests pass, demo passes without and fails with it), then run
# the quick checks named (default: the property in meta.json) against /repo with
# the patch applied, and undo it.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/plant-XXXXXX)
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
cd "$W/repo" || exit 2
( bash "$W/demo/demo.sh" >/dev/null 2>&1 ) || { echo "$id: demo fails on the unchanged tree"; rm -rf "$W"; exit 1; }
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
( bash "$W/demo/demo.sh" >/dev/null 2>&1 ) && { echo "$id: demo passes with the patch"; rm -rf "$W"; exit 1; }
cd /; rm -rf "$W"
git -C /repo apply "$S/patch.diff" || exit 1
t=$(bash /opt/vp/test.sh /tmp/plant-$id.json | tail -1); rm -f /tmp/plant-$id.json
echo "$id tests: $t"
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for c in "$@"; do
  s=$(date +%s); timeout 900 ./check.sh $c quick > /tmp/plant-out.txt 2>&1; rc=$?
  echo "$id $c: rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/plant-out.txt) violations"
  grep -m2 ^VIOLATION /tmp/plant-out.txt
done
git -C /repo checkout -- .
