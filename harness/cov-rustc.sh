#!/bin/bash
# cargo's RUSTC_WRAPPER: the program and the trees it stores report every basic block they execute
case " $* " in
  *" --crate-name mplx_rewards "* | *" --crate-name sokoban "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$@"
