#!/bin/bash
# usage: tools/plant.sh ID [notest]
# Confirms a planted bug in a scratch copy of /repo, bind-mounted over /repo in a private
# mount namespace: applies, builds, passes the stable tests, demo tells the two trees apart.
# Then runs the property's check on it.
id=$1; mode=$2
here=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
w=$(mktemp -d /tmp/plant-$id-XXXX)
cp -a "${REPO:-/repo}" "$w/repo"; cp -a /opt/vp "$w/vp"; cp -a "$here" "$w/demo"
git -C "$w/repo" checkout -q -- . 
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$here/meta.json'))['property'])")
ns() { unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/vp /opt/vp && cd /repo && $1"; }
ns "bash $w/demo/demo.sh" >"$w/demo0.log" 2>&1; echo "[$id] demo unchanged: $? (want 0)"
if ! git -C "$w/repo" apply "$here/patch.diff"; then echo "[$id] PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; fi
ns "bash /opt/vp/build.sh" >"$w/build.log" 2>&1; echo "[$id] build: $?"
ns "bash $w/demo/demo.sh" >"$w/demo1.log" 2>&1; echo "[$id] demo patched: $? (want nonzero)"; tail -2 "$w/demo1.log"
if [ "$mode" != notest ]; then
  ns "bash /opt/vp/test.sh $w/out.json" >"$w/test.log" 2>&1
  /opt/venv/bin/python - "$w/out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {t for t,v in x[k].items() if v in (True,'passed','pass')}
    return set()
B,O=passed(b),passed(o)
miss=sorted(B-O)
print(f"[{sys.argv[2]}] tests: baseline {len(B)} passed {len(O)} broken {len(miss)} {miss[:4]}")
P
fi
DST_REPO_LIB="$w/repo/lib" DST_EVIDENCE="$w" timeout 900 "$here/../../check" "$prop" quick --max-report 2 >"$w/check.log" 2>&1; rc=$?
echo "[$id] check $prop: rc=$rc (want 1)"; grep -E "^  [a-z]|VIOLATION|HARNESS" "$w/check.log" | cut -c1-220 | head -6
rm -rf "$w"
