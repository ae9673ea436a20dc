#!/bin/bash
# plant.sh ID [PROP...]: verifies a planted bug (demo passes/fails, tests pass) and runs the checks of its property against it; /repo is restored afterwards
ID=$1; shift; S=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for f in demo.h demo.sh; do cmp -s /verif/tools/demo/$f $S/$f || cp /verif/tools/demo/$f $S/$f; done
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
cd /repo
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "clean build failed"; exit 1; }
bash $S/demo.sh > /tmp/plant.clean 2>&1; rc=$?; echo "clean demo: $rc $(tail -1 /tmp/plant.clean)"
git apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { grep -m5 error /tmp/plant.log; echo "patched build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1
bash $S/demo.sh > /tmp/plant.bug 2>&1; rc=$?; echo "patched demo: $rc $(tail -1 /tmp/plant.bug)"
cd /verif
for p in $PROPS; do python3 check.py $p quick > /tmp/plant.chk 2>&1; echo "check $p: rc=$?"; grep -E "^violated|VIOLATION|note|ERROR" /tmp/plant.chk | cut -c1-260 | head -8; done
