#!/bin/sh
# cargo RUSTC_WRAPPER: instrument every basic block of the library under test
# (and of nothing else) with a call into the simulator.
rustc="$1"; shift
case " $* " in
  *" --crate-name visdom "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc ;;
  *) exec "$rustc" "$@" ;;
esac
