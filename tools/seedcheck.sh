#!/bin/bash
# seedcheck.sh [SEED...]: which checks catch which planted change (scratch copies, CAL_REPO points the analysis there)
R=$(cd "$(dirname "$0")/.." && pwd)
one() {
  s=$1; R=$2; P=$(python3 -c "import json;print(json.load(open('$R/seeded/$s/meta.json'))['property'])")
  W=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo/src /repo/CMakeLists.txt $W/ 2>/dev/null; 
  (cd $W && patch -p1 -s < $R/seeded/$s/patch.diff) || echo "PATCH FAILS $s"
  for c in ${CHECKS:-$P}; do
    o=$(CAL_REPO=$W CAL_OUT=$W/out python3 $R/check.py $c quick 2>&1); rc=$?
    printf '%-28s %s rc=%d %s\n' $s $c $rc "$(echo "$o" | grep -v VIOLATION | head -1 | cut -c1-150)"
  done
  /bin/rm -rf $W
}
export -f one
if [ $# = 0 ]; then set -- $(ls $R/seeded); fi
printf '%s\n' "$@" | xargs -P ${J:-4} -I{} bash -c "one {} $R"
