#!/bin/bash
# plant.sh ID [full|check|demo]: confirm a planted change of /verif/seeded/ID
#   full : demo passes without, and with the patch: builds, stable tests pass, demo fails, check fails
#   check: only run the property's check with the patch applied
id=$1; mode=${2:-full}; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
run_demo() { rm -rf /tmp/demo.$$; cp -a $d /tmp/demo.$$; (cd /repo; timeout 300 bash /tmp/demo.$$/demo.sh >/tmp/demo.$$.out 2>&1); r=$?; rm -rf /tmp/demo.$$; return $r; }
if [ $mode != check ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  run_demo && echo "demo unchanged: ok" || { echo "demo FAILS unchanged"; tail -20 /tmp/demo.$$.out; }
fi
git apply $d/patch.diff || exit 2
if [ $mode != check ]; then
  bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/plant.log; exit 1; }
  run_demo && echo "demo patched: PASSES (bad)" || echo "demo patched: fails as wanted: $(tail -2 /tmp/demo.$$.out | tr '\n' ' ')"
fi
if [ $mode = full ]; then bash /tmp/w/rt.sh; fi
if [ $mode != demo ]; then (cd /verif; rm -rf /verif/failures; python3 check.py $prop quick 2>&1 | grep -E "VIOLATION|quick seed|rror" | head -5); fi
