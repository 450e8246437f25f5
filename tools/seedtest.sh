#!/bin/bash
# seedtest.sh ID [--notest] [--nocheck]: confirms a planted bug in a scratch copy of /repo bound over /repo in a private mount namespace.
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=${W:-/tmp/mut}
mkdir -p $W
rsync -a --delete /repo/ $W/repo/
[ -d $W/build ] || cp -a /verif/.build $W/build 2>/dev/null
D=$(mktemp -d /tmp/seeddemo.XXXX); cp $S/* $D/; rm -f $D/*.diff $D/meta.json
export S D P W OPTS="$*" ID
unshare -Urm bash -c '
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh >$W/log 2>&1 || echo BUILD0 FAILED
timeout 300 bash $D/demo.sh >$W/demo0 2>&1; echo "$ID demo unchanged: $?"
git apply $S/patch.diff || { echo PATCH DOES NOT APPLY; exit 1; }
bash /opt/vp/build.sh >$W/log 2>&1 || { echo BUILD FAILED; grep error: $W/log; exit 1; }
timeout 300 bash $D/demo.sh >$W/demo1 2>&1; echo "$ID demo patched: $?"
[[ $OPTS == *--notest* ]] || bash /opt/vp/test.sh $W/t.json 2>&1 | tail -1
[[ $OPTS == *--notest* ]] || python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
s=b.get("passed") or b.get("stable") or b
print("$ID stable tests failing:", sorted(set(s)-set(t["passed"]))[:10])
PY
[[ $OPTS == *--nocheck* ]] || { mkdir -p $W/ev $W/out; mount --bind $W/build /verif/.build; mount --bind $W/ev /verif/evidence; mount --bind $W/out /verif/out; cd /verif; timeout 900 python3 run.py $P > $W/check 2>&1; echo "$ID check $P exit: $?"; grep -A1 VIOLATION $W/check | head -4; }
'
rm -r "$D"
