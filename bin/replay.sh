#!/bin/bash
# Builds the native replay binary; prints its path.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/build/native RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg hydra_verif -A warnings"
mkdir -p "$V/build/log"
cd "$V/harness"
cargo build --offline --bin replay --features "native${1:+,$1}" >"$V/build/log/native.log" 2>&1 || { tail -60 "$V/build/log/native.log" >&2; exit 1; }
echo "$CARGO_TARGET_DIR/debug/replay"
