#!/bin/bash
# trybug.sh ID [notest|nocheck]...: confirm a planted bug in /repo and show which checks see it (development aid)
D=/verif/seeded/$1; shift
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || echo BASE BUILD FAILED
bash $D/demo.sh >/tmp/tb.demo0 2>&1; echo "demo on clean: $? (want 0)"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || echo BUILD FAILED
bash $D/demo.sh >/tmp/tb.demo1 2>&1; echo "demo with bug: $? (want nonzero)"; tail -3 /tmp/tb.demo1
case " $* " in *" notest "*) ;; *) bash /opt/vp/test.sh /tmp/tb.json 2>&1 | tail -5;
 python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/tb.json'))
print('stable tests broken:', sorted(b-set(r['passed'])))
P
;; esac
case " $* " in *" nocheck "*) ;; *) cd /verif; for p in ${CHECKS:-$P}; do VERIF_SEED=1 timeout 900 python3-vt vf/run.py $p --tier quick 2>&1 | tail -4 | cut -c1-600; done;; esac
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
