#!/bin/bash
# tools/plant.sh ID...: confirms planted bugs in scratch copies of /repo: the patch applies,
# builds, the tests still pass, the demonstration passes without and fails with it.
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/plant.XXXXXX)
  git -C /repo archive HEAD | tar -x -C "$w"
  mkdir "$w.demo"; cp -a "$d"/. "$w.demo"; rm -f "$w.demo"/*.diff "$w.demo"/meta.json
  cd "$w"
  go build ./... || echo "$id: BUILD (clean)"
  bash "$w.demo/demo.sh" >"$w.demo/out0" 2>&1; a=$?
  git apply "$d/patch.diff" 2>/dev/null || patch -s -p1 < "$d/patch.diff" || { echo "$id: PATCH FAILS"; }
  if ! go build ./... ; then echo "$id: BUILD FAILS"; fi
  t=$(go test -vet=off -count=1 ./... 2>&1 | grep -E '^(FAIL|---)' )
  bash "$w.demo/demo.sh" >"$w.demo/out1" 2>&1; b=$?
  if [ $a = 0 ] && [ $b != 0 ] && [ -z "$t" ]; then echo "$id: ok (demo $a/$b)"; else
    echo "$id: BAD demo clean=$a patched=$b tests: $t"; tail -5 "$w.demo/out0"; echo ---; tail -5 "$w.demo/out1"; fi
  cd /; rm -rf "${w:?}" "${w:?}.demo"
done
