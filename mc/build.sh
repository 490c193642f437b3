#!/bin/bash
# usage: build.sh [std|ns|ship] ; builds the model checker from /repo's working tree
d="$(cd "$(dirname "$0")" && pwd)"; cd "$d" || exit 2
export THINGBUF_MC_SHIM="$d/shim/thingbuf_mc.rs" RUSTFLAGS="--cfg thingbuf_mc -Awarnings" CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
case "$1" in
 ns)   exec cargo build -q --release --offline --no-default-features --target-dir "$d/target/ns" ;;
 ship) exec cargo build -q --profile ship --offline --target-dir "$d/target/ship" ;;
 *)    exec cargo build -q --release --offline --target-dir "$d/target/std" ;;
esac
