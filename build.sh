# sourced by check.sh and setup.sh: builds crate $1 offline, sets BIN
VD=${VERIF_DIR:-$PWD}
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$VD/target/$1 CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTUP_TOOLCHAIN
mkdir -p "$CARGO_TARGET_DIR"
# Content, not time stamps, decides whether the code under test is rebuilt.
sum=$(cd /repo && find akasa-core -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
stamp=$CARGO_TARGET_DIR/.tree
case $1 in
small) pk="-p mon-small"; bin=small ;;
broker) pk="-p akasa-core"; bin=broker; export RUSTFLAGS="--cfg akasa_verif" ;;
esac
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ] && [ -d "$CARGO_TARGET_DIR/debug" ]; then
    (cd "$VD/$1" && cargo clean --offline -q $pk) >/dev/null 2>&1
fi
log=$CARGO_TARGET_DIR/build.log
(cd "$VD/$1" && cargo build --offline --locked --bin $bin) >"$log" 2>&1 || { grep -E '^(error|warning: unused)' -A6 "$log" | head -40; return 1; }
echo "$sum" >"$stamp"
BIN=$CARGO_TARGET_DIR/debug/$bin
