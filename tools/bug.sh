#!/bin/bash
# bug.sh ID : /repo holds the edit (or seeded/ID/patch.diff is applied); tests it, runs demo and check, reverts
V=/verif; B=$V/seeded/$1; cd /repo
[ -f $B/demo.sh ] || cp $V/tools/demo.sh $B/demo.sh
if git diff --quiet; then git apply $B/patch.diff || exit 1; else git diff > $B/patch.diff; fi
trap 'git -C /repo checkout -q -- .' EXIT
P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -A5 ^error /tmp/b.log|head -20; echo "$1 BUILD-FAIL"; exit 1; }
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P' || { echo "$1 TESTS-FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=set(b.get('stable') or b.get('passed') or b.get('tests'))
bad=st-set(t['passed'])
if bad: print('missing',list(bad)[:5])
sys.exit(1 if bad else 0)
P
fi
bash $B/demo.sh >/tmp/d.log 2>&1; rc=$?
[ $rc = 3 ] && tail -20 /tmp/d.log
bash $V/bin/check.sh $P quick >/tmp/c.log 2>&1; crc=$?
echo "$1 $P demo-with-bug rc=$rc ($( grep -v '^note' /tmp/d.log|grep panicked -A1|tail -1|cut -c1-80)) check rc=$crc $(grep -c ^VIOLATION /tmp/c.log) violations"
