#!/bin/bash
# seedtest.sh <seed id> [check id...]: confirm a planted bug in a scratch copy
# of /repo (builds, passes the stable tests, demo fails with / passes without)
# and run the checks against it.  Never touches /repo.
S=/verif/seeded/$1; ID=$1; shift
. /opt/vp/env.inc
W=$(mktemp -d /tmp/seedtest-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
export PYTHONPATH=$W/repo/src
mkdir "$W/demo"; cp -a "$S"/. "$W/demo"/; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
( timeout 300 bash "$W/demo/demo.sh" ) >"$W/d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
if git diff --name-only | grep -qE '\.(pyx|pxi)$'; then
  rm -f src/pydsm/delsig/_simulateDSM_*.c src/pydsm/delsig/*.so
  $PY setup.py -q build_ext --inplace -j2 >"$W/b" 2>&1 || { echo "$ID: build failed"; tail "$W/b"; exit 1; }
  mkdir -p build && ext_hash > build/.ext-stamp
fi
( timeout 300 bash "$W/demo/demo.sh" ) >"$W/d1" 2>&1; d1=$?
if [ -z "$NOTEST" ]; then
$PY -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules \
  --benchmark-disable -n 4 src >"$W/t" 2>&1
t=$(tail -1 "$W/t"); fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
res=""
for c in $P "$@"; do
  VERIF_SEED=1 PYDSM_REPO=$W/repo timeout 900 python3 /verif/check.py $c --tier quick >"$W/c" 2>&1; rc=$?
  res="$res $c:rc=$rc:$(grep -o 'clause=[^ ]*' "$W/c" | sort | uniq -c | sort -rn | head -3 | tr -s ' \n' ' ')"
  [ $rc -eq 2 ] && tail -n 5 "$W/c"
done
ok=OK; [ $d0 -eq 0 ] && [ $d1 -ne 0 ] || ok=BAD-DEMO
echo "$ID: demo $d0->$d1 $ok | tests: $t | $res"
[ $ok = OK ] || { tail -n 5 "$W/d0" "$W/d1"; }
