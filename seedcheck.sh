#!/bin/bash
# seedcheck.sh ID [PROPERTY]: run a check against a planted change, on copies of /repo and /verif (removed afterwards), so that several can run side by side
id=$1; d=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/sk.XXXXXX); trap 'rm -rf "$w"' EXIT
mkdir $w/repo $w/verif; (cd /repo && git archive HEAD) | tar x -C $w/repo
(cd /verif && cp -r check.py vlib engine harness known-findings.jsonl properties.jsonl MANIFEST.json $w/verif/)
(cd $w/repo && patch -s -p1 < $d/patch.diff) || exit 1
s=$(date +%s); (cd $w/verif && SYMX_REPO=$w/repo timeout ${T:-900} python3 check.py $prop > $w/out 2>&1); rc=$?
echo "$id: $prop exit $rc $(( $(date +%s) - s )) s $(grep -E 'VIOLATION|PROBLEM|BUILD' $w/out | head -3)"; grep -E 'engine:|inputs:|native' $w/out | cut -c1-300
[ $rc = 0 ] || [ $rc = 1 ] || tail -5 $w/out
