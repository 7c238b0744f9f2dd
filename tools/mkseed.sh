#!/bin/bash
# mkseed.sh ID : confirm a planted bug (its patch is the current diff of /repo when there is one), then run its property's check on it
cd /verif; D=seeded/$1; mkdir -p $D
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .; fi
[ -f $D/demo.sh ] || [ -f $D/demo.hpp ] || cp tools/seedkit/demo.hpp $D/; [ -f $D/demo.sh ] || cp tools/seedkit/demo.sh $D/
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BASE BUILD FAIL
mkdir -p /tmp/sd; cp -r $D/. /tmp/sd/; (cd /repo; bash /tmp/sd/demo.sh 2>&1|tail -3; echo "demo on unchanged tree: ${PIPESTATUS[0]}")
git -C /repo apply /verif/$D/patch.diff || exit 1
bash /verif/tools/t.sh 2>&1 | tail -2
(cd /repo; bash /tmp/sd/demo.sh >/tmp/sdo 2>&1; echo "demo with the change: $?"; tail -3 /tmp/sdo)
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
python3 check.py $P 2>&1 | cut -c1-300 | tail -${2:-6}
git -C /repo checkout -q -- .
rm -r -f /tmp/sd
