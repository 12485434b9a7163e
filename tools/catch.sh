#!/bin/bash
# catch.sh [ids]: runs the check of each planted bug's property on a copy of /repo with the patch applied
# (development only; several at once) and records the result in tools/caught.json
cd "$(dirname "$0")/.."
one() {
  d=$1
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rc.XXXXXX); cp -a /repo/. $w/; o=$(mktemp /tmp/rco.XXXXXX)
  if git -C $w apply "$PWD/seeded/$d/patch.diff"; then
    CAITLYN_REPO=$w ./check $p > $o 2>&1; rc=$?
    echo "$d $p rc=$rc $(grep -c ^VIOLATION $o) $(grep -o '[0-9]* violated.*' $o | tail -1)"
    flock /tmp/catch.lock python3 - "$d" "$p" $rc <<'P'
import json,sys,os
f='tools/caught.json'; c=json.load(open(f)) if os.path.exists(f) else {}
c[sys.argv[1]]=[sys.argv[2]] if sys.argv[3]=='1' else []
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
P
  else echo "$d does not apply"; fi
  rm -r -- "$w"
}
export -f one
printf '%s\n' ${@:-$(ls seeded)} | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
