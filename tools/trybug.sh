#!/bin/bash
# trybug.sh ID...: apply a seeded change to /repo, run its property's check, undo.
for b in "$@"; do
  d=/verif/seeded/$b
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || exit 1
  (cd /repo && VERIF_SEED=${VERIF_SEED:-1} /verif/run.py $p 2>&1 | grep -v '^{' | cut -c1-400; echo "$b $p rc ${PIPESTATUS[0]}")
  git -C /repo checkout -- .
done
