#!/bin/bash
# tools/seedtest.sh ID... : confirm planted bugs (demo passes without, fails
# with the change; stable tests pass with it) and see which check reports it.
# Applies each patch to /repo and always undoes it.
ORIGPATH=$PATH
. /opt/vp/common.sh >/dev/null 2>&1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  env -i PATH="$ORIGPATH" HOME=/root bash $d/demo.sh >/tmp/seed.clean 2>&1 && c=ok || c=FAIL
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || b=FAIL
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed.out >/dev/null 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.out'))
st=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b)
ps=set(o['passed']) if 'passed' in o else set(k for k,v in o.items() if v)
m=sorted(st-ps); print('ok' if not m else 'MISSING %d %s'%(len(m),m[:3]))
P
)
  fi
  env -i PATH="$ORIGPATH" HOME=/root bash $d/demo.sh >/tmp/seed.dirty 2>&1 && p="PASSES(bad)" || p=fails
  k=skipped
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s)
    (cd /verif && env -i PATH="$ORIGPATH" HOME=/root VERIF_SEED=1 VERIF_TIER=quick ./check.sh $prop quick >/tmp/seed.check 2>&1); rc=$?
    k="rc=$rc $(grep -c '^VIOLATION' /tmp/seed.check) violations $(( $(date +%s)-s ))s: $(grep '^VIOLATION' /tmp/seed.check | head -3 | tr '\n' ' ' | cut -c1-250)"
  fi
  git checkout -q -- . 
  echo "$id prop=$prop clean=$c build=$b tests=$t patched-demo=$p check: $k"
done
bash /opt/vp/build.sh >/dev/null 2>&1
