#!/bin/bash
# seedtests.sh [GLOB]: runs the repository's tests with each planted bug applied, in scratch copies
. /verif/env.sh
one() {
  id=$1; d=/tmp/st-$id; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
  cd $d; if ! git apply --unsafe-paths --directory=$d /verif/seeded/$id/patch.diff 2>/dev/null && ! patch -s -p1 < /verif/seeded/$id/patch.diff; then echo "$id STALE"; rm -rf "$d"; return; fi
  if go test ./... > /tmp/st-$id.log 2>&1; then echo "$id ok"; else echo "$id FAILS: $(grep -a '\[FAIL\]\|^--- FAIL\|build failed' /tmp/st-$id.log | head -3 | tr '\n' ' ' | cut -c1-300)"; fi
  cd /tmp; rm -rf "$d"
}
export -f one
ls /verif/seeded | grep -E "${1:-.}" | xargs -P 3 -I{} bash -c 'one {}'
