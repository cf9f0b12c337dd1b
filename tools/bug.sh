#!/bin/bash
# usage: bug.sh ID...  -- confirm planted bugs: demo passes without and fails with the patch, stable tests pass, own check catches it
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d="$here/seeded/$id"
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo.out 2>&1); clean=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  (cd /repo && timeout 300 bash "$d/demo.sh" >>/tmp/demo.out 2>&1); broken=$?
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/dev/null 2>&1
    bash /opt/vp/test.sh /tmp/bug-tests.json >/dev/null 2>&1
    tests=$(python3 -c "
import json
o=json.load(open('/tmp/bug-tests.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
print(len(set(s)-set(o['passed'])))")
  fi
  (cd "$here" && timeout 900 ./check.sh $prop >/tmp/bug-check.out 2>&1); rc=$?
  caught=$(grep -c "^VIOLATION property=$prop " /tmp/bug-check.out)
  git -C /repo checkout -q -- .
  bad=""
  [ $clean = 0 ] && [ $broken != 0 ] && [ "$tests" = 0 -o -n "$NOTEST" ] || bad=" INVALID"
  [ $rc = 1 ] && [ $caught -gt 0 ] && c=CAUGHT || c=MISSED
  echo "$id $prop: demo clean=$clean broken=$broken tests-lost=$tests check=$rc $c$bad"
done
rm -f /tmp/bug-tests.json
