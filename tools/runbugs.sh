#!/bin/bash
# tools/runbugs.sh [-j N] ID...: runs the check of each planted bug's property on a scratch copy
# of /repo with the bug. Extra checks: CHECKS="C01 C02" overrides the property.
J=3
[ "$1" = -j ] && { J=$2; shift 2; }
one() {
  id=$1
  w=$(mktemp -d /tmp/runbug.XXXXXX)
  mkdir "$w/repo" "$w/out"
  git -C /repo archive HEAD | tar -x -C "$w/repo"
  patch -s -p1 -d "$w/repo" < /verif/seeded/$id/patch.diff || echo "$id: patch fails"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    VERIF_REPO="$w/repo" VERIF_OUT="$w/out" timeout 900 /verif/check $c ${TIER:-quick} >"$w/log" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$c" "$w/log")
    if [ $rc = 1 ] && [ $v -gt 0 ]; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$id $c: $r ($(( $(date +%s) - s )) s) $(grep -m1 "^$c:" "$w/log" | cut -c1-150)"
    [ $rc -gt 1 ] && tail -5 "$w/log"
  done
  rm -rf "${w:?}"
}
export -f one
printf '%s\n' "$@" | xargs -P "$J" -I{} bash -c 'one {}'
