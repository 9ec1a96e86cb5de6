#!/bin/bash
# seed.sh <id>: with the patch of /verif/seeded/<id> applied to /repo: build, stable tests, demo, check; then undone
id=$1; S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "dirty /repo"; exit 9; }
[ -z "$NODEMO" ] && { bash $S/demo.sh >/tmp/seed_$id.clean 2>&1; echo "demo clean rc=$?"; }
git apply $S/patch.diff || exit 9
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { tail -20 /tmp/seed.build; echo BUILD FAILS; exit 9; }
timeout 200 bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<X
import json
o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("stable tests failing:",len(bad),bad[:2]); import sys; sys.exit(1 if bad else 0)
X
[ $? = 0 ] || exit 8
bash $S/demo.sh >/tmp/seed_$id.bug 2>&1; echo "demo bug rc=$?"; tail -2 /tmp/seed_$id.bug
fi
cd /verif && for p in ${CHECKS:-$P}; do python3 check.py $p quick | tail -3; done
