#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks": turn the uncommitted edit in /repo into /verif/seeded/ID (demo.sh/demo.py are written separately)
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -- .
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
printf '#!/bin/bash\nexec python3-vt "$(dirname "$0")/demo.py"\n' > $D/demo.sh
cat $D/patch.diff
