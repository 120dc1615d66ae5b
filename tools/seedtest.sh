#!/bin/bash
# For each planted bug named (default all): apply to /repo, build, test, demo, run the check of its property, undo.
R=${SEED_REPO:-/repo}  # a copy of /repo for drafting; the planted bugs that are kept are run against /repo
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  base=skip
  if [ -n "$BASE" ]; then bash ${SEED_VP:-/opt/vp}/build.sh >/dev/null 2>&1; (cd $R && timeout 300 bash $d/demo.sh >/tmp/seed.base 2>&1); base=$?; fi
  if ! git -C $R apply --check $d/patch.diff 2>/dev/null; then echo "$id: PATCH DOES NOT APPLY"; continue; fi
  git -C $R apply $d/patch.diff
  bash ${SEED_VP:-/opt/vp}/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  t=$(python3 -c "
import json
r=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
need=b.get('passed') or b.get('stable') or b.get('tests') or []
p=set(map(str,r['passed']))
print(len(p), [x for x in need if str(x) not in p])")
  (cd $R && timeout 300 bash $d/demo.sh >/tmp/seed.demo 2>&1); dm=$?
  out=$(VP_REPO=$R python3 run.py $prop 2>&1); rc=$?
  git -C $R checkout -- .
  echo "$id: tests $t; demo base=$base patched=$dm; check $prop rc=$rc $(echo "$out" | grep -c VIOLATION)"
done
bash ${SEED_VP:-/opt/vp}/build.sh >/dev/null 2>&1
