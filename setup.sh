#!/bin/bash
# Builds both check programs offline (each check rebuilds what it needs anyway).
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
for c in pubchk intchk; do
  ( . "$VERIF/build.sh" "$c" hooks plain && . "$VERIF/build.sh" "$c" hooks checked ) || { echo "building $c failed"; exit 1; }
done
( . "$VERIF/build.sh" pubchk hooks sched ) || echo "the build for overlapping calls failed"
