#!/bin/bash
# seedcheck.sh <ids...>: on /repo: demo passes without, and fails with the change; tests still pass; does the check catch it?
cd /repo
git diff --quiet || { echo "/repo is dirty"; exit 1; }
for id in "$@"; do
    d=/verif/seeded/$id
    bash /opt/vp/build.sh > /tmp/sc.log 2>&1
    bash $d/demo.sh > /tmp/sc.clean 2>&1; a=$?
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh > /tmp/sc.log 2>&1 || echo "$id: does not build"
    bash $d/demo.sh > /tmp/sc.bug 2>&1; b=$?
    t=skipped
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh /tmp/sc.json > /dev/null 2>&1
        t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc.json'))['passed'])
print('pass' if b<=p else 'FAIL '+str(b-p))")
    fi
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /verif; python3 check.py $prop > /tmp/sc.check 2>&1); c=$?
    git checkout -q -- .
    echo "$id: demo clean=$a bug=$b tests=$t check($prop)=$c"
    [ $a -ne 0 ] && tail -5 /tmp/sc.clean
    [ $c -ne 1 ] && head -5 /tmp/sc.check | cut -c1-200
done
bash /opt/vp/build.sh > /tmp/sc.log 2>&1
