#!/bin/bash
# build.sh [WHAT...]: builds from /repo's working tree; WHAT: mon (default), clients, js, lib, cov, asan
V=$(cd "$(dirname "$(realpath "${BASH_SOURCE[0]}")")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=${MON_TARGET:-$V/target} CARGO_INCREMENTAL=0
[ $# = 0 ] && set -- mon
LOG=$(mktemp)
try() {
  if ! "$@" >"$LOG" 2>&1; then
    grep -E '^error' -A 12 "$LOG" | head -60
    tail -3 "$LOG"
    rm -f "$LOG"
    echo "build failed"
    exit 3
  fi
}
for w in "$@"; do
  case $w in
    mon) cd "$V/harness" && try cargo build --release --offline --locked ;;
    clients)
      cd "$V/clients" || exit 3
      cargo build --release --offline --locked >/dev/null 2>&1 || try cargo build --release --offline --locked --no-default-features
      ;;
    lib)
      # the parts of the library that there are
      cd "$V/lib" || exit 3
      F=amounts,claims,kinds,sizes
      if ! cargo build --release --offline --locked --features $F >/dev/null 2>&1; then
        F=
        for f in amounts claims kinds sizes; do
          cargo build --release --offline --locked --features $f >/dev/null 2>&1 && F=$F,$f
        done
      fi
      try cargo build --release --offline --locked --features "${F#,}"
      ;;
    js) try "$V/clients/js/build.sh" "$CARGO_TARGET_DIR/js" ;;
    cov)
      # the same program, counting the basic blocks it executes
      cd "$V/harness" &&
        RUSTC_WRAPPER=$V/harness/cov-rustc.sh CARGO_TARGET_DIR=$CARGO_TARGET_DIR/cov try cargo build --release --offline --locked
      ;;
    asan)
      # the same program, instrumented by AddressSanitizer
      cd "$V/harness" &&
        RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/asan \
          try cargo build --release --offline --locked --target x86_64-unknown-linux-gnu
      ;;
  esac
done
rm -f "$LOG"
