#!/bin/bash
# Developer convenience: does planted bug ID count (builds, stable tests pass, demo tells it apart), and is it caught?
# seed.sh ID [check-only]. Works on /repo itself and undoes the change.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != check-only ]; then
  bash /opt/vp/build.sh >/tmp/build.log 2>&1
  bash $d/demo.sh >/tmp/demo.ok 2>&1; echo "$id demo on the clean tree: $? (want 0)"
fi
git -C /repo apply $d/patch.diff || exit 2
if [ "$2" != check-only ]; then
  bash /verif/tools/stable.sh
  bash $d/demo.sh >/tmp/demo.bad 2>&1; echo "$id demo with the bug: $? (want nonzero): $(tail -1 /tmp/demo.bad)"
fi
s=$(date +%s); VERIF_SEED=1 bash /verif/tools/check.sh $prop quick >/tmp/check.out 2>&1; echo "$id check $prop: $? in $(( $(date +%s)-s )) s: $(grep -h VIOLATION /tmp/check.out | head -2)"
