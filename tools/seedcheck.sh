#!/bin/bash
# tools/seedcheck.sh <seed id> [check]: confirm a planted bug in a scratch copy of /repo
# (build, stable tests, demo passes without and fails with it); with 'check', also run the property's quick check.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); s=$here/seeded/$id
. /opt/vp/env.sh
d=$(mktemp -d /tmp/seedcopy.XXXXXX); trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar -x -C "$d"; cp -a /repo/funpy/cheb/*.so "$d"/funpy/cheb/ 2>/dev/null
export PYTHONPATH=$d
cd "$d" && git init -q . && git add -A && git -c user.email=a@b -c user.name=n commit -qm base
bash "$s/demo.sh" >"$d/.demo0" 2>&1; r0=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
if git diff --name-only | grep -q 'pyx\|pxd'; then
  $PY setup.py build_ext --inplace >"$d/.build" 2>&1 || { echo "$id: build failed"; tail -5 "$d/.build"; exit 1; }
fi
$PY -W ignore -m pytest -q -p no:cacheprovider --rootdir="$d" --timeout=300 -W ignore 2>&1 | tail -8 >"$d/.tests"
t=$(tail -1 "$d/.tests")
bash "$s/demo.sh" >"$d/.demo1" 2>&1; r1=$?
echo "$id: demo clean rc=$r0 patched rc=$r1; tests: $t"
[ "$r0" = 0 ] || tail -5 "$d/.demo0"
[ "$r1" = 0 ] || tail -2 "$d/.demo1"
if [ "$2" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd "$here"; SIM_REPO=$d VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash check.sh $p quick >"$d/.chk" 2>&1; echo "   check $p rc=$?: $(grep -m1 VIOLATION "$d/.chk")  $(tail -1 "$d/.chk")"
fi
