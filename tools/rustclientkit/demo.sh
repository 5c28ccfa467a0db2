#!/bin/bash
# exit 0 if the property holds in this scenario, nonzero if not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 9
trap 'rm -rf "${W:?}"' EXIT
cp -r "$D/demo" "$W/demo" || exit 9
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.78.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cd "$W/demo" && cargo build -q --offline --locked || exit 8
"$CARGO_TARGET_DIR/debug/demo"
