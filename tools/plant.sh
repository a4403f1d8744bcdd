#!/bin/bash
# tools/plant.sh ID [--tests] : check one planted bug in a scratch copy: applies, demo on both trees, (stable tests), checks of its property
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/plant.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/demo"
cp "$d"/* "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") >"$w/o1" 2>&1; a=$?
git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$w"; exit 1; }
if git -C "$w/repo" diff --name-only | grep -q pyx; then (cd "$w/repo" && SETUPTOOLS_SCM_PRETEND_VERSION=0.11.0 /opt/venv/bin/python setup.py build_ext --inplace --force) >"$w/b" 2>&1; fi
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") >"$w/o2" 2>&1; b=$?
[ $a != 0 ] && tail -5 "$w/o1"
echo "$id ($prop): demo clean=$a patched=$b  $(tail -1 "$w/o2" | cut -c1-150)"
t=''
if [ "$2" = --tests ]; then
  for m in test_gaussian test_verbosity; do
    mkdir "$w/$m"; (cd "$w/$m"; PYTHONPATH=$w/repo MPLBACKEND=Agg timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=$w/repo $w/repo/tests/$m.py -k test_run </dev/null >log 2>&1; echo "   $m: $? $(tail -1 log | cut -c1-100)")
  done
fi
for p in $prop $CHECKS; do
  if [ -f checks/${p,,}.py ]; then
    VERIF_EVIDENCE=$w VERIF_REPO=$w/repo ./run.sh $p --seed ${SEED:-1} >"$w/o3" 2>&1; c=$?
    echo "   check $p: exit $c  $(grep -v '^C..' "$w/o3" | grep -B1 VIOLATION | head -1 | cut -c1-220)"
    tail -1 "$w/o3" | cut -c1-160
  fi
done
rm -rf "$w"
