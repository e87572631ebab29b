#!/bin/bash
# catch.sh [ID-glob]: run each seeded change against its property's check; prints which are caught
cd /verif
for x in seeded/${1:-*}/; do
  b=$(basename "$x"); c=$(python3 -c "import json;print(json.load(open('$x/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo dirty; exit 1; }
  git -C /repo apply "/verif/$x/patch.diff" || continue
  s=$SECONDS; o=$(./check.sh $c quick 2>/tmp/catch.err); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$c" <<<"$o"; then r=CAUGHT; else r=MISSED; fi
  echo "$b $c $r rc=$rc $((SECONDS-s))s $(tail -1 <<<"$o" | cut -c1-120)"
  [ $rc -gt 1 ] && tail -3 /tmp/catch.err | cut -c1-300
done
