#!/bin/bash
# plant.sh ID: take the edit made in the scratch copy /tmp/wt, store it as
# seeded/ID/patch.diff and confirm it (build, tests, demo clean/patched, check).
# Needs seeded/ID/demo.py|demo.sh and meta.json to exist.  Scratch use only.
set -u
id=$1; wt=/tmp/wt; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C $wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edit"; exit 1; }
git -C /repo apply --check $d/patch.diff || { echo "does not apply"; exit 1; }
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
run() { ( cd $1 && NUMBA_CACHE_DIR=$(mktemp -d) timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1 ); }
run /repo; a=$?; [ $a -ne 0 ] && cat /tmp/demo.out
run $wt; b=$?
t=$(cd $wt && NUMBA_CACHE_DIR=$(mktemp -d) /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p randomly --randomly-seed=1 --randomly-dont-reorganize --rootdir=$wt -c HamiltonianPy/tests/pytest.ini HamiltonianPy/tests 2>&1 | tail -1)
c=$(HAMSIM_REPO=$wt /verif/bin/check $prop --no-evidence 2>&1 | grep -E "VIOLATION prop|HARNESS|held:|^seed" | head -4 | cut -c1-220)
echo "$id: demo clean=$a patched=$b tests: $t"
echo "$c"
git -C $wt checkout -q -- .
