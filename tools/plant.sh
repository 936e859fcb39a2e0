#!/bin/bash
# tools/plant.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo (bound over /repo in
# a mount namespace of its own): builds, stable tests pass, demo fails with it and passes without, and
# runs the property's check against it.
ID=$1
S=/verif/seeded/$ID
if [ "${IN_NS:-}" = "" ]; then
    D=/tmp/plant-$ID
    rm -rf /tmp/plant-$ID
    cp -a /repo $D
    IN_NS=1 unshare -Urm bash "$0" "$@"
    rm -rf /tmp/plant-$ID
    exit 0
fi
D=/tmp/plant-$ID
mount --bind $D /repo
git config --global --add safe.directory /repo 2>/dev/null
cd /repo
cp -a $S $D-demo; rm -f $D-demo/patch.diff $D-demo/meta.json
git checkout -q -- .
bash /opt/vp/build.sh >$D-demo/b0.log 2>&1 || echo "$ID: base build failed"
(cd /repo && timeout 300 bash $D-demo/demo.sh >$D-demo/d0.log 2>&1); r0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $D-demo/out.json >$D-demo/t.log 2>&1 || true
python3 - $D-demo/out.json $ID <<'PY'
import json, sys
s = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open(sys.argv[1]))
m = s - set(o['passed'])
print(sys.argv[2], 'stable tests missing:', len(m), sorted(m)[:5])
PY
(cd /repo && timeout 300 bash $D-demo/demo.sh >$D-demo/d1.log 2>&1); r1=$?
echo "$ID: demo unchanged=$r0 (want 0) patched=$r1 (want nonzero)"; tail -2 $D-demo/d1.log
if [ "${2:-}" != nocheck ]; then
    P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
    cp -a /verif $D-verif; rm -rf $D-verif/.git $D-verif/seeded
    (cd $D-verif && PYTHONPATH=$D-verif timeout 900 bash ./check.sh $P 2>&1 | grep -E "VIOLATION|KNOWN|rror|held|wall" | head -5; echo "$ID check exit ${PIPESTATUS[0]}")
    rm -rf $D-verif
fi
rm -rf $D-demo
