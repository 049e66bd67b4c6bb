#!/bin/bash
# seed.sh ID [notest]: tries out one planted bug on /repo: demo on the clean tree, patch, build, tests, demo,
# the check of its property; undoes the patch.
set -u
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; dir=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; }
trap undo EXIT
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
bash "$dir/demo.sh" > /tmp/seed_demo0.log 2>&1; clean=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: does not build"; tail -20 /tmp/seed_build.log; exit 1; }
tests=skipped
if [ "${2:-}" != notest ]; then
bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
tests=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def passed(x): return set(x.get('stable') or x.get('passed') or x.get('pass') or [k for k,v in x.get('tests',x).items() if v in ('passed','PASS','pass',True)])
print("broken:", sorted(passed(b)-passed(o))[:5]) if passed(b)-passed(o) else print("pass")
P
)
fi
bash "$dir/demo.sh" > /tmp/seed_demo1.log 2>&1; bad=$?
start=$SECONDS
env -u MC_KEEP bash "$here/check.sh" "$prop" quick > /tmp/seed_check.$id.log 2>&1; check=$?
echo "$id $prop: demo clean=$clean patched=$bad; tests $tests; check=$check ($(grep -c "^VIOLATION property=$prop" /tmp/seed_check.$id.log) violations, $((SECONDS-start)) s) $(grep -m1 ^VIOLATION /tmp/seed_check.$id.log | cut -c1-150)"
