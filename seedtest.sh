#!/bin/bash
# seedtest.sh ID [PROPERTY]: apply a planted change to /repo, build, run the stable tests, its demo and the check, then undo it
id=$1; d=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/st.build 2>&1; bash $d/demo.sh > /tmp/st.demo0 2>&1; d0=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/st.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/st.build; exit 1; }
bash /opt/vp/test.sh /tmp/st.json > /tmp/st.test 2>&1
t=$(python3 -c "
import json;a=json.load(open('/opt/vp/BASELINE.json'))['stable'];b=json.load(open('/tmp/st.json'))['passed']
print('tests-ok' if set(a)<=set(b) else 'TESTS-FAIL '+str(set(a)-set(b)))")
bash $d/demo.sh > /tmp/st.demo 2>&1; d1=$?
echo "$id: $t demo unchanged=$d0 changed=$d1"
[ "$NOCHECK" ] || { cd /verif; python3 check.py $prop > /tmp/st.check 2>&1; echo "$id: check exit $? $(grep -E 'VIOLATION|PROBLEM|BUILD' /tmp/st.check | head -3)"; grep -E 'engine:|inputs:|native' /tmp/st.check | cut -c1-300; }
