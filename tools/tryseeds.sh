#!/bin/bash
# tryseeds.sh [ids...] : run the quick check of each planted bug's property against a patched scratch copy
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo $t/repo; git -C $t/repo apply /verif/seeded/$d/patch.diff || echo "APPLY FAILED"
  out=$(VERIF_REPO=$t/repo timeout 900 ./run.py $p --tier quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep ^VIOLATION | grep -o 'clauses=.*' | head -1)"
  rm -rf "$t"
done
