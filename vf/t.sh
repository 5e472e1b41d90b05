#!/bin/bash
# development: run a check, show at most a few short failure lines.  usage: t.sh ID [args]
cd "$(dirname "$0")/.."; python3-vt vf/run.py "$@" -v > /tmp/t.$1.out 2>&1
grep -A3 '^FAIL' /tmp/t.$1.out | cut -c1-${W:-330} | head -${L:-7}
grep -E 'evaluations|^KNOWN|BUILD|not reprod' /tmp/t.$1.out | cut -c1-300
