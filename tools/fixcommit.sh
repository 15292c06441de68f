#!/bin/bash
# usage: fixcommit.sh "fix: message"  -- builds, runs the stable tests, commits /repo's change
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
st=set(b.get('stable') or b.get('passed') or b.get('tests'))
bad=st-set(t['passed'])
print('missing',bad); sys.exit(1 if bad else 0)
P
[ $? = 0 ] && git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1
