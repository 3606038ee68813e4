#!/bin/bash
# plant.sh ID : apply seeded/ID to /repo, check that it builds, passes the tests, fails its demo and is caught; undo.
id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
[ "$2" = nodemo0 ] || { (bash $s/demo.sh) ; echo "demo clean rc=$?"; }
git apply $s/patch.diff || exit 1
bash /tmp/rt.sh 2>&1 | tail -3
(bash $s/demo.sh); echo "demo patched rc=$?"
cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick 2>&1 | tail -6
git -C /repo checkout -- .
