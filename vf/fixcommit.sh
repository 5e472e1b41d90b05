#!/bin/bash
# development: build /repo, run its tests, commit the working tree as a fix and record it.  usage: fixcommit.sh PROP "fix: message" "what failed"
set -e
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[x for x in b['stable'] if x not in o['passed']]
print('missing stable:',m); sys.exit(bool(m))
P
git -C /repo commit -qam "$2"
python3 /verif/vf/addknown.py fixed $1 $(git -C /repo rev-parse --short HEAD) "$3"
git -C /verif add -A; git -C /verif commit -qm "$1: record fix"
git -C /repo status --short; git -C /repo log --oneline | head -1
