#!/bin/bash
# usage: plant.sh ID [check-id|-] [seed]   tries planted bug /verif/seeded/ID in a copy of /repo that
# is mounted over /repo in a private namespace: demo, patch, build, tests, demo, check.
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant.$ID; rm -rf "$W"; mkdir -p "$W"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
CK=${2:-$P}; SEED=${3:-1}
cp -a /repo "$W/repo"; mkdir -p "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
unshare -Urmn bash -c '
ip link set lo up
mount --bind '$W'/repo /repo; cd /repo
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >'$W'/b0 2>&1 || echo BUILD0-FAIL
timeout 300 bash '$W'/demo/demo.sh >'$W'/d0 2>&1; r=$?; [ $r = 0 ] || { echo "DEMO0 rc=$r (must be 0)"; tail -3 '$W'/d0; }
fi
git apply '$D'/patch.diff || { echo APPLY-FAIL; exit 1; }
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh >'$W'/b1 2>&1 || { echo BUILD1-FAIL; tail -5 '$W'/b1; exit 1; }
bash /opt/vp/test.sh '$W'/out.json >'$W'/t1 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"'$W'/out.json\"))
m=set(b[\"stable\"])-set(o[\"passed\"]); print(\"TESTS FAIL\",m) if m else None"
timeout 300 bash '$W'/demo/demo.sh >'$W'/d1 2>&1; r=$?; [ $r != 0 ] && tail -1 '$W'/d1 | cut -c1-200 || echo "DEMO1 rc=$r (must be nonzero)"
fi
for c in '"$(echo $CK | tr ',' ' ')"'; do [ $c = - ] && continue; s=$(date +%s)
VERIF_SEED='$SEED' timeout 900 python3 /verif/checks/run_check.py $c >'$W'/ck.$c 2>&1; r=$?
echo "'$ID' $c rc=$r $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION '$W'/ck.$c | cut -c1-160) $(grep -v VIOLATION '$W'/ck.$c | head -1 | cut -c1-260)"; done'
cp "$W"/ck.* /tmp/w/ 2>/dev/null; rm -rf "$W"
