#!/bin/bash
# rustc, with a callback at every basic block, load and store of /repo's crate (RUSTC_WRAPPER of build.sh's sched build)
rustc=$1
shift
case " $* " in
  *" --crate-name puzzle_utils "*)
    set -- "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
