#!/bin/bash
# Developer convenience: makes seeded/ID from the uncommitted change in /repo and a main.rs on stdin, then undoes it.
# newseed.sh ID PROPERTY NEEDS BREAKS < main.rs
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cp /verif/tools/demo/demo.sh /verif/tools/demo/common.rs $d/; cat > $d/main.rs
P="$2" N="$3" B="$4" python3 -c "
import json,os
json.dump({'property':os.environ['P'],'needs':os.environ['N'],'what_it_breaks':os.environ['B']},open('$d/meta.json','w'),indent=1)"
