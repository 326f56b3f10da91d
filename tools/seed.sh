#!/bin/bash
# usage: seed.sh <id>: /verif/seeded/<id>/{patch.diff,demo.cc,meta.json} -> copies the kit, confirms everything, runs the property's check
S=/verif/seeded/$1; cd /repo; [ -z "$(git status --porcelain -uno)" ] || { echo "/repo is dirty"; exit 1; }
cp /verif/tools/demokit/* $S/; chmod +x $S/demo.sh
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
ok() { bash $S/demo.sh > /tmp/seed.demo.log 2>&1; }
[ -n "$SKIPCLEAN" ] || { ok || { echo "demo fails on the clean tree"; tail -5 /tmp/seed.demo.log; exit 1; }; }
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$ONLYCHECK" ]; then
bash /opt/vp/build.sh > /tmp/seed.build.log 2>&1 || { echo "does not build"; tail -5 /tmp/seed.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json > /dev/null 2>&1
python3 - <<'Y' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed.json'))['passed']
m=[t for t in b if t not in o]
if m: print("stable tests fail:",m); sys.exit(1)
Y
ok && { echo "demo passes with the change"; exit 1; }
tail -2 /tmp/seed.demo.log
fi
cd /verif; for c in ${CHECKS:-$P}; do MC_MAXVIOL=3 python3 check.py $c > /tmp/seed.check.log 2>&1; r=$?; echo "$1 -> $c exit $r: $(grep -m1 VIOLATION /tmp/seed.check.log | cut -c1-200)"; done
