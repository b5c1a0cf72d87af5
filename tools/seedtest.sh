#!/bin/bash
# tools/seedtest.sh ID... : confirms planted bugs (builds, stable tests pass, demo 0/nonzero) and runs their check on the patched tree.
# Applies each patch to /repo and undoes it. Development aid; no registered command uses it.
cd /verif
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d /tmp/seedX.XXXX); cp -a $S/. $T/; rm -f $T/patch.diff $T/meta.json
  (cd /repo && timeout 300 bash $T/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed.json'))['passed']);print(len(b-p))")
  (cd /repo && timeout 300 bash $T/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
  python3 run.py check $P >/tmp/seed.check.$id 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id ($P): build $b, stable tests lost $t, demo $d0 -> $d1, check exit $c: $(grep -c "^VIOLATION property=$P" /tmp/seed.check.$id) violations: $(grep -E ' x[0-9]+ \(case' /tmp/seed.check.$id | head -3 | sed 's/ (case.*//' | tr '\n' ';')"
  rm -rf "$T"
done
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
