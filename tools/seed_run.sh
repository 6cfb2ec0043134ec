#!/bin/bash
# apply each planted bug to a scratch copy of /repo, run its property's quick check against that copy (VERIF_REPO),
# remove the copy; results -> tools/seed_results.json.  seed_run.sh [-j N] [ids]
cd "$(dirname "$0")/.."
J=1; [ "$1" = -j ] && { J=$2; shift 2; }
T=$(mktemp -d /tmp/seedrun.XXXXXX); export T
one() { i=$1
 p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
 cp -a ${BASE:-/repo} "$T/$i"; git -C "$T/$i" checkout -q -- .; git -C "$T/$i" apply "$PWD/seeded/$i/patch.diff" 2>/dev/null || { echo "$i APPLY FAIL"; return; }
 s=$(date +%s); VERIF_REPO="$T/$i" ./check.py $p > "$T/$i.log" 2>&1; rc=$?; e=$(date +%s)
 w=$(grep -m1 -B2 VIOLATION "$T/$i.log" | head -1 | sed 's/^ *//' | sed 's/ {.*}:/:/' | sed 's/\[got.*//' | cut -c1-120)
 [ -n "$T" ] && rm -rf "$T/$i"
 echo "$i $p rc=$rc $((e-s))s $w"
 RC=$rc W="$w" I=$i P=$p flock "$T/lock" python3 - <<'Q'
import json,os
f='tools/seed_results.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[os.environ['I']]=('%s, %s' % (os.environ['P'],os.environ['W'])) if os.environ['RC']=='1' else 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
Q
}
export -f one
for i in ${@:-$(ls seeded)}; do echo $i; done | xargs -P $J -I{} bash -c 'one {}'
[ -n "$T" ] && rm -rf "$T"
