#!/bin/bash
# confirm.sh ID [check-tier]: demo passes unpatched; patched: builds, stable tests pass, demo fails; then run the property's check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh >/tmp/sd0 2>&1; r0=$?; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/sb 2>&1; rb=$?
t=$(bash /tmp/t.sh | tail -1)
bash $d/demo.sh >/tmp/sd1 2>&1; r1=$?
echo "$id prop=$prop demo_clean=$r0 build=$rb tests=[$t] demo_patched=$r1"
[ $r0 = 0 ] || cat /tmp/sd0
fi
timeout 900 /verif/check $prop ${2:-quick} >/tmp/sc 2>&1; rc=$?
echo "$id check $prop rc=$rc $(grep -c ^VIOLATION /tmp/sc) violations"
