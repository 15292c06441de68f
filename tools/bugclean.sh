#!/bin/bash
# all demos on the clean tree
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1
for b in ${@:-$(ls /verif/seeded)}; do bash /verif/seeded/$b/demo.sh >/tmp/d.log 2>&1 || { echo "$b demo fails on the clean tree rc=$?"; tail -5 /tmp/d.log; }; done; echo demos done
