#!/bin/bash
# seedcopy.sh ID [PROP...]: like seedcheck.sh, but on scratch copies of /verif (working tree) and /repo, so that several can run at once.
id=$1; shift
S=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedcopy.XXXXXX)
mkdir $W/verif
(cd /verif && cp -a bin harness spec tools known-findings.txt MANIFEST.json properties.jsonl $W/verif/)
mkdir $W/verif/evidence
git clone -q /repo $W/repo
(cd $W/repo && git apply $S/patch.diff) || { rm -rf $W; exit 3; }
sed -i "s#=> /repo#=> $W/repo#" $W/verif/harness/go.mod
sed -i "s#\"/repo\"#\"$W/repo\"#" $W/verif/bin/check
for p in $props; do
  out=$(VERIF_SEED=${VERIF_SEED:-1} $W/verif/bin/check $p ${TIER:-quick} 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -E 'VIOLATION|CHECK-ERROR|^ok' | head -1) | $(echo "$out" | grep -m1 step | cut -c1-${W_:-260})"
done
rm -rf $W
