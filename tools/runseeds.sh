#!/bin/bash
# For each planted bug: apply to /repo, build, run tests, run the demo, run the property's check; undo.
# usage: runseeds.sh [ids...]     (environment: NOTEST=1 skips build+tests)
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 2; }
for id in "${ids[@]}"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
  t=skipped
  if [ -z "$NOTEST" ]; then
    if bash /opt/vp/build.sh >/tmp/rs.build 2>&1; then
      bash /opt/vp/test.sh /tmp/rs.json >/tmp/rs.test 2>&1
      t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rs.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x.get(k),list): return set(map(str,x[k]))
        if isinstance(x.get(k),dict): return set(n for n,v in x[k].items() if v in (True,'pass','passed'))
    return set()
m=passed(b)-passed(r); print('tests-ok(%d)'%len(passed(b)) if not m else 'TESTS-FAIL %s'%sorted(m)[:4])
P
)
    else t=BUILD-FAILED; fi
  fi
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/rs.demo 2>&1); dr=$?
  s=$(date +%s); timeout 900 python3 check.py $prop >/tmp/rs.check.$id 2>&1; cr=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $prop | $t | demo $dr | check rc=$cr $((e-s))s | $(grep -m1 VIOLATION /tmp/rs.check.$id | cut -c1-160)"
done
