#!/bin/bash
# hit.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, and undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff 2>/dev/null || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} ./check.sh ${PROP:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E 'VIOLATION|held|error|failed' | head -1 | cut -c1-150)"
  r=$(echo "$out" | sed -n 's/.*replay=//p' | head -1)
  [ -n "$r" ] && python3 -c "
import json;d=json.load(open('$r'));print('    ',d['violation']['class'],'|',d['violation']['msg'][:230].replace(chr(10),' '))" 2>/dev/null
done
