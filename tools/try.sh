#!/bin/bash
# try.sh <patch-file|-Rcommit> CHECK...: applies a patch (or reverses a commit) in /repo, runs checks, restores.
P=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
case $P in
-R*) git show "${P#-R}" | git apply -R --3way 2>/dev/null || git show "${P#-R}" | git apply -R || exit 2;;
*) git apply "$P" || exit 2;;
esac
git reset -q
for c in "$@"; do (cd /verif && ./check.sh $c quick 2>&1 | cut -c1-${W:-400} | tail -${N:-14}); done
git checkout -q -- . ; git clean -fdq; git status --short
