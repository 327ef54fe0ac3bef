#!/bin/bash
# tools/seedrun.sh ID [quick]: a planted bug in a scratch copy of /repo, bound over /repo in a private namespace:
# demo before and after, stable tests, and the check of its property.  Prints one line.
set -u
id=$1; mode=${2:-full}
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedrun.XXXXXX)
cp -a /repo "$W/repo"
cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
git -C "$W/repo" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
ns() { unshare -Urmn bash -c "mount --bind $1 /repo; ip link set lo up; cd /repo; $2"; }
cp -a /repo "$W/clean"
ns "$W/clean" "timeout 300 bash $W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?
ns "$W/repo" "timeout 300 bash $W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
t=skipped
if [ "$mode" = full ]; then
  ns "$W/repo" "bash /opt/vp/test.sh $W/out.json" >/dev/null 2>&1
  t=$(python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
try: o=json.load(open(sys.argv[1]))
except Exception: print('NORESULT'); raise SystemExit
m=sorted(set(b['stable'])-set(o['passed'])); print('ok' if not m else 'FAIL%d:%s'%(len(m),m[:3]))
P
)
fi
mkdir -p "$W/verif"; cp -a /verif/. "$W/verif/"; 
unshare -Urmn bash -c "mount --bind $W/repo /repo; mount --bind $W/verif /verif; ip link set lo up; cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $prop" >"$W/c" 2>&1; c=$?
caught=no; [ $c = 1 ] && grep -q "^VIOLATION property=$prop" "$W/c" && caught=YES
echo "$id prop=$prop demo clean=$d0 patched=$d1 tests=$t check=$c caught=$caught"
[ $d0 != 0 ] && tail -5 "$W/d0"
[ $d1 = 0 ] && tail -3 "$W/d1"
[ $caught = no ] && tail -3 "$W/c" | cut -c1-300
[ $caught = YES ] && grep -v "^VIOL" "$W/c" | tail -2 | cut -c1-200
rm -rf "$W"
