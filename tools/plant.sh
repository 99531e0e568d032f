#!/bin/bash
# tools/plant.sh SEEDDIR [check secs]: confirms a planted bug in a scratch copy mounted over /repo
# (private mount namespace): builds, runs the stable tests, runs the demo with and without, runs its check.
D=$(realpath "$1"); SECS=${2:-45}; W=${PLANT_W:-/tmp/wt}
if [ -d $W/repo ]; then rsync -rlpgo --checksum --delete --exclude _build /repo/ $W/repo/ 2>/dev/null || { find $W/repo -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {} +; (cd /repo && tar cf - --exclude=./_build .) | tar xf - -C $W/repo; }; else mkdir -p $W; cp -a /repo $W/repo; fi
export D SECS W
unshare -Urm bash -c '
mount --bind $W/repo /repo || exit 9
cd /repo; git update-index -q --refresh; git checkout -q -- .
bash /opt/vp/build.sh >$W/b0.log 2>&1 || { echo "clean build failed"; exit 1; }
DD=$(mktemp -d $W/demo.XXXX); cp -r $D/. $DD; rm -f $DD/*.diff $DD/meta.json
for i in 1 2 ; do timeout 300 bash $DD/demo.sh >$W/d0.log 2>&1; echo "demo clean: $?"; done
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "patched build failed"; tail -20 $W/b1.log; exit 1; }
for i in 1 2 3; do timeout 300 bash $DD/demo.sh >$W/d1.log 2>&1; echo "demo patched: $? $(tail -1 $W/d1.log)"; done
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
s=set(b.get("stable_passed") or b.get("stable") or b.get("passed")); print("stable", len(s), "broken by the patch:", sorted(s-set(t["passed"]))[:5])
P
fi
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
SIM_BUILD=$W/simbuild python3 ${CHECKDIR:-/verif}/check.py $P --secs $SECS | tail -4; echo "check $P exit ${PIPESTATUS[0]}"
git apply -R $D/patch.diff
rm -rf $DD
'
