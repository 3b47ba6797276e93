#!/bin/bash
# exit 0: the property holds in this scenario; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -a "$D/kit/." "$T/"
cp "$D/main.rs" "$T/src/main.rs"
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
cargo build --offline -q >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
timeout 120 "$T/target/debug/demo"
