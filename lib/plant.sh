#!/bin/bash
# plant.sh ID [fast]: confirm one planted bug (seeded/ID) in a private copy of /repo mounted over /repo in a namespace of
# its own: demo passes without the patch, the patch applies, builds, the stable tests pass, the demo fails, and the
# property's check reports the violation. "fast" skips the stable tests.
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; FAST=$2
export D V FAST ID=$1
W=$(mktemp -d /tmp/plant.XXXXXX); export W
cp -a /repo "$W/repo"; cp -a "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
unshare -Urmi bash -c '
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >$W/build0.log 2>&1 || { echo "$ID base build failed"; exit; }
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "$ID patch does not apply"; exit; }
bash /opt/vp/build.sh >$W/build1.log 2>&1 || { echo "$ID patched build failed"; tail -5 $W/build1.log; exit; }
t=skipped
if [ -z "$FAST" ]; then bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; t=$(python3 -c "
import json;b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);o=json.load(open(\"$W/out.json\"));m=b-set(o[\"passed\"]);print(\"ok\" if not m else sorted(m))"); fi
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; d1=$?
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
mkdir -p $W/verif; cp -a $V/bin $V/lib $V/spec $V/harness $V/known-findings.txt $V/properties.jsonl $W/verif/
VERIF_SEED=1 timeout 900 $W/verif/bin/check $P quick >$W/check.log 2>&1; c=$?
echo "$ID [$P] demo base=$d0 patched=$d1 tests=$t check=$c $(grep ^VIOLATION $W/check.log | cut -c1-40) $(tail -1 $W/demo1.log | cut -c1-100)"
[ $c = 1 ] || tail -3 $W/check.log
'
rm -rf "$W"
