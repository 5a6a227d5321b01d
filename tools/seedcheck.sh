#!/bin/bash
# seedcheck.sh ID [PROP...]: applies a planted change to /repo, runs the quick check of its property (or of PROP...), undoes it.
id=$1; shift
S=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply $S/patch.diff || exit 3
for p in $props; do
  out=$(VERIF_SEED=${VERIF_SEED:-1} /verif/bin/check $p ${TIER:-quick} 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -E 'VIOLATION|CHECK-ERROR|^ok' | head -1) | $(echo "$out" | grep -m1 step | cut -c1-${W:-260})"
done
git -C /repo checkout -- .
