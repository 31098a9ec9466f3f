#!/bin/bash
unset VERIF_REPO
# bash tools/trybug.sh [-s] ID...: demo on the clean tree, then with the patch: build, demo, (-s: stable tests), the property's check.
S=0; [ "$1" = -s ] && { S=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/demo0.out 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/bug.build 2>&1; b=$?
  (cd /repo && bash $d/demo.sh >/tmp/demo1.out 2>&1); c=$?
  m=skipped; [ $S = 1 ] && m=$(bash /verif/tools/suite.sh 2>&1 | tail -1)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py $p >/tmp/bug.$id.out 2>&1); k=$?
  git -C /repo checkout -q -- .
  echo "$id: demo clean=$a patched=$c build=$b suite=$m check=$k $(grep -c '^VIOLATION' /tmp/bug.$id.out) violations: $(grep -o '^\[C[0-9]*\] [a-z:-]* (x[0-9]*)' /tmp/bug.$id.out | head -3 | tr '\n' ' ')"
done
bash /opt/vp/build.sh
