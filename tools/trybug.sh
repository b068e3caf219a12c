#!/bin/bash
# trybug.sh ID [-t] [CHECK...]: apply seeded/ID to a scratch copy; run its demo (clean and patched), the checks, and with -t the tests
id=$1; shift
T=0; [ "$1" = "-t" ] && { T=1; shift; }
d=/verif/seeded/$id
S=$(mktemp -d /tmp/trybug.XXXXXX)
git -C /repo archive HEAD | tar x -C $S
export XDG_CACHE_HOME=$S/.cache XDG_CONFIG_HOME=$S/.config PYTHONDONTWRITEBYTECODE=1
(cd $S; timeout 300 bash $d/demo.sh >$S/.d0 2>&1; echo "$id demo clean: $?")
(cd $S; git init -q . ; git apply $d/patch.diff && echo applied) || exit 1
(cd $S; timeout 300 bash $d/demo.sh >$S/.d1 2>&1; echo "$id demo patched: $?"; tail -2 $S/.d1 | cut -c1-300)
if [ $T = 1 ]; then (cd $S; PYTHONPATH=$S /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --ignore=tests/test_numeric/test_immersed_boundary_ops tests 2>&1 | tail -3); fi
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p $S/.ev
for c in "$@"; do (cd /verif; SOPHT_REPO=$S EVIDENCE_DIR=$S/.ev python3 check.py $c > $S/.c 2>&1; r=$?; echo "$id check $c: exit $r"; [ $r = 1 ] && grep '^  \[' -m1 $S/.c | cut -c1-300; [ $r = 2 ] && tail -2 $S/.c | cut -c1-400); done
rm -rf "$S"
