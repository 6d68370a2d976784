#!/bin/bash
# try.sh ID [PROP]: apply a planted change to /repo, build, test, run its demo and its property's check, undo
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
  (cd /repo && bash $d/demo.sh > /tmp/try.$id.demo0 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /repo && bash /opt/vp/build.sh > /tmp/try.$id.build 2>&1) || echo "$id: DOES NOT BUILD"
  bash /opt/vp/test.sh /tmp/try.$id.json > /tmp/try.$id.test 2>&1
  (cd /repo && bash $d/demo.sh > /tmp/try.$id.demo 2>&1); d1=$?
  t=$(date +%s)
  timeout 900 python3-vt check.py $prop > /tmp/try.$id.check 2>&1; rc=$?
  git -C /repo checkout -- .
  new=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/try.$id.json'))
def passed(x):
    return set(x.get('passed', x.get('stable', x)))
print(sorted(passed(b)-passed(o))[:5])
P
)
  echo "$id: demo clean=$d0 patched=$d1; newly failing tests: $new; check $prop rc=$rc $(( $(date +%s) - t ))s $(grep -h '^VIOLATION' /tmp/try.$id.check)"
done
