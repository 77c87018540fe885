#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo (a private mount namespace in which the copy
# is /repo): unchanged tree -> demo 0; patched -> builds, stable tests pass, demo non-zero; then runs the property's check.
id=$1; S=$(mktemp -d /tmp/seedXXXXXX); V=$(cd "$(dirname "$0")/.." && pwd)
cp -a /repo "$S/repo"; cp -a "$V/seeded/$id" "$S/d"; git -C "$S/repo" checkout -q -- .
prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -c '
S='$S'; id='$id'; prop='$prop'; V='$V'
mount --bind $S/repo /repo; cd /repo
bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo "$id: clean build FAILED"; exit; }
timeout 300 bash $S/d/demo.sh >$S/d0.log 2>&1; echo "$id: demo clean rc=$?"
git apply $S/d/patch.diff || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/build.sh >$S/b1.log 2>&1 || { echo "$id: patched build FAILED"; tail -5 $S/b1.log; exit; }
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh $S/o.json >$S/t.log 2>&1; tail -1 $S/t.log; python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=set(json.load(open("$S/o.json"))["passed"]); print("$id: stable tests lost:",sorted(b-o))
P
}
timeout 300 bash $S/d/demo.sh >$S/d1.log 2>&1; echo "$id: demo patched rc=$?"; tail -2 $S/d1.log
[ -n "'$2'" ] || { VERIF_SEED=1 VERIF_TIER=quick python3 $V/bin/check.py $prop >$S/c.log 2>&1; echo "$id: check $prop rc=$?"; grep -A1 VIOL $S/c.log | head -4; tail -1 $S/c.log | cut -c1-300; }
'
rm -rf "$S"
