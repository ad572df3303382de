#!/bin/bash
# seedrun.sh ID...: confirm planted bugs (build, tests, demo) and run their property's check against them, on /repo, undoing each.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  (cd /repo && bash $d/demo.sh >/tmp/demo0.out 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
  tests=$(python3 -c "import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']),'pass',len(d['failed']),'fail')")
  (cd /repo && bash $d/demo.sh >/tmp/demo1.out 2>&1); b=$?
  r=skip; l=
  if [ -z "$NOCHECK" ]; then l=$(python3-vt check.py --property $p 2>&1); r=$?; l=$(echo "$l" | grep -m1 VIOLATION); fi
  git -C /repo checkout -q -- .
  echo "$id prop=$p demo clean=$a patched=$b tests: $tests check=$r $l"
done
bash /opt/vp/build.sh >/dev/null 2>&1
