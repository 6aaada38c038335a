#!/bin/sh
# Adds edge and access callbacks (the scheduler's preemption points) to crates `reveaal` and `simglue`.
rustc="$1"; shift
case " $* " in
  *" --crate-name reveaal "*|*" --crate-name simglue "*)
    # Its small functions must not be compiled into the simulator instead, without callbacks.
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zcross-crate-inline-threshold=never -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ${SIM_SANCOV_EXTRA:-} ;;
esac
exec "$rustc" "$@"
