#!/bin/bash
# seedtest.sh ID...: confirms in a scratch copy that a planted change applies, builds, passes the stable tests,
# and that its demo passes on the unchanged tree and fails with the change.  NOTEST=1 skips the test suite.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedwork.XXXXXX)
  D=$(mktemp -d /tmp/seeddemo.XXXXXX)
  cp -a /repo/. $W/ ; cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
  (cd $W && bash $D/demo.sh >$D/clean.log 2>&1); c=$?
  (cd $W && git apply $S/patch.diff) || { echo "$id: DOES NOT APPLY"; continue; }
  (cd $W && go1.23 build ./... ) || echo "$id: BUILD FAILS"
  (cd $W && bash $D/demo.sh >$D/bug.log 2>&1); b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    (cd $W && go1.23 test -json -vet=off -count=1 -timeout 6m ./... > $D/a.jsonl 2>/dev/null;
     USE_BIT_DECOMPOSITION_RANGE_CHECK=true go1.23 test -json -vet=off -count=1 -timeout 6m ./... 2>/dev/null |
     sed 's/^\({.*"Action":"[a-z-]*","Package":"\)/\1bitdecomp:/' > $D/b.jsonl)
    t=$(python3 - $D/a.jsonl $D/b.jsonl <<'P'
import json,sys
ok=set()
for f in sys.argv[1:]:
    for l in open(f):
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[s for s in st if s not in ok]
print('tests ok' if not bad else 'TESTS FAIL %d: %s'%(len(bad),bad[:3]))
P
)
  fi
  echo "$id: demo clean=$c bug=$b; $t"
  [ $c -ne 0 ] && tail -15 $D/clean.log
  [ $b -eq 0 ] && tail -5 $D/bug.log
  rm -rf $W $D
done
