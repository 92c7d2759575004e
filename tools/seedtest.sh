#!/bin/bash
# seedtest.sh ID [nocheck]: demo clean -> apply -> build -> tests -> demo -> check -> revert
id=$1; S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo DIRTY; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id BUILD0 FAIL"; exit 1; }
bash $S/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id APPLY FAIL"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "$id BUILD FAIL"; tail -5 /tmp/seed.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed.test.json >/dev/null 2>&1
t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.test.json'))
bl=b.get('passed') or b.get('stable') or b.get('tests') or b
print(len([x for x in bl if x not in o['passed']]))")
bash $S/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
echo "$id prop=$prop demo_clean=$d0 demo_bug=$d1 tests_broken=$t"
if [ "$2" != nocheck ]; then (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop > /tmp/seed.$id.check 2>&1; echo "$id check rc=$?"; grep -E 'VIOLATION|PASS' /tmp/seed.$id.check | cut -c1-150; grep '# failed' /verif/evidence/replay/$prop-* 2>/dev/null | cut -c1-200| head -3); fi
