#!/bin/bash
# seedtest.sh ID [check]: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private mount
# namespace, so neither /repo nor /verif is touched): it builds, the stable tests pass, the demo passes without and
# fails with it; then run the property's quick check against it.
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
sc=${SC:-/tmp/sc}; sv=${SV:-/tmp/sv}
if [ ! -d $sc ]; then cp -a /repo $sc; fi
git -C $sc fetch -q /repo HEAD && git -C $sc checkout -q -f FETCH_HEAD
mkdir -p $sv; rsync -a --delete --exclude build --exclude .git --exclude replay /verif/ $sv/ ; [ -d $sv/build ] || cp -a /verif/build $sv/build
exec unshare -rm bash -c '
id=$1 prop=$2 sc=$3 sv=$4
mount --bind $sv /verif && mount --bind $sc /repo || exit 9
d=/verif/seeded/$id; cd /repo
if [ "$SKIPDEMO" != 1 ]; then
if [ "$CLEANDEMO" != 0 ]; then bash /opt/vp/build.sh >/tmp/seed.$id.log 2>&1 || { echo "clean build failed"; exit 8; }
timeout 300 bash $d/demo.sh >/tmp/seed.$id.demo0 2>&1; echo "demo clean: $?"; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 8; }
bash /opt/vp/test.sh /tmp/seed.$id.json >>/tmp/seed.$id.log 2>&1
python3 - $id <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed.%s.json"%sys.argv[1]))
k=[x for x in ("stable","passed","tests") if x in b][0]
miss=set(b[k])-set(r["passed"]); print("tests passed",len(r["passed"]),"missing",sorted(miss)[:5])
P
timeout 300 bash $d/demo.sh >/tmp/seed.$id.demo1 2>&1; echo "demo patched: $?"
else git apply $d/patch.diff || exit 8; fi
for p in ${prop//,/ }; do
cd /verif; s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 tools/vf.py check $p > /tmp/seed.$id.$p.check 2>&1; echo "check $p: $? ($(( $(date +%s)-s ))s) $(grep -m2 VIOLATION /tmp/seed.$id.$p.check|tr "\n" " ")"
done
git -C /repo checkout -q -- .
' x $id $prop $sc $sv
