#!/bin/bash
# bash check.sh <property> [--tier quick|thorough] [--replay FILE]
# Builds the check against /repo's working tree and runs it.
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: no verdict.
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
case "$id" in
  C06|C07) hook=cover ;;
  C10) hook=line ;;
  C23) hook=sets ;;
  C24) hook=random ;;
  *) hook= ;;
esac
try() { . "$VERIF/build.sh" "$@" > "$VERIF/out/build-$id.txt"; }
mkdir -p "$VERIF/out"
crate=pubchk part=hooks
if [ -z "$hook" ]; then
  try pubchk || { cat "$VERIF/out/build-$id.txt"; echo "ERROR property=$id: build failed"; exit 2; }
# The five checks on internals: with all hooks; if some internal changed its shape, with the one hook
# this check needs; if that one is gone too, through the public functions that rest on it.
elif try intchk; then
  crate=intchk
elif try intchk "$hook"; then
  crate=intchk part=$hook
else
  why=$(cat "$VERIF/out/build-$id.txt")
  try pubchk || { echo "$why"; cat "$VERIF/out/build-$id.txt"; echo "ERROR property=$id: build failed"; exit 2; }
  echo "NOTE property=$id: internals are not reachable any more ($(echo "$why" | head -1)); checked through the public functions"
fi
export VP_ROOT=$VERIF
# First the code as a release build has it (debug assertions and overflow checks off in /repo's crate), for a
# limited time; then, in full, as its tests have it. What breaks in either is broken.
checked=$BIN
if try "$crate" "$part" plain; then
  case "$*" in *thorough*) limit=600 ;; *) limit=45 ;; esac
  first=$(VP_BUDGET=${VP_BUDGET:-$limit} VP_NOTE="crate built without debug assertions and overflow checks" "$BIN" "$@")
  if [ $? -eq 1 ]; then
    echo "in a build without debug assertions and overflow checks:"
    echo "$first"
    exit 1
  fi
  export VP_NOTE="the same exploration, for at most $limit s, of the crate built without debug assertions and overflow checks: $(echo "$first" | grep "^$id \|^property $id" | tail -1)"
fi
# Overlapping calls need a build that can be interrupted anywhere.
if [ "$id" = C25 ] && try "$crate" "$part" sched; then export VP_SCHED_BIN=$BIN; fi
exec "$checked" "$@"
