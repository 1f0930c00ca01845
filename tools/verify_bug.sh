#!/bin/bash
# verify_bug.sh <id>: in a scratch copy of /repo bound over /repo: demo passes, then patch, build, stable tests, demo fails.
id=$1; S=/verif/seeded/$id; W=/tmp/vb_$id
rm -rf "/tmp/vb_$id"; cp -a /repo "$W"
git -C "$W" apply --check "$S/patch.diff" || { echo "patch does not apply"; rm -rf "$W"; exit 1; }
unshare -Urm bash -c "
mount --bind $W /repo || exit 9
cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo clean build failed; exit 9; }
bash $S/demo.sh > $W/d0.log 2>&1; echo demo clean: \$?
git apply $S/patch.diff
bash /opt/vp/test.sh $W/t.json > $W/b1.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('tests missing:',m)
P
bash $S/demo.sh > $W/d1.log 2>&1; echo demo patched: \$?
tail -3 $W/d1.log
"
rm -rf "/tmp/vb_$id"
