#!/bin/bash
# Emits the LLVM IR of the harness library (hydra, its dependencies and std included), from /repo's working tree.
# usage: ir.sh [features]   -> prints the path of the .ll
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$V/build/ir RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg hydra_verif -C no-vectorize-loops -C no-vectorize-slp -A warnings"
mkdir -p "$V/build/vendor" "$V/build/log"
for c in tokio-1.54.1 flume-0.11.1; do
  l=$V/build/vendor/${c%-*}
  if [ ! -e "$l/Cargo.toml" ]; then
    s=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/$c 2>/dev/null | head -1)
    if [ -n "$s" ]; then
      ln -sfn "$s" "$l"
    else
      t=$(ls "${CARGO_HOME:-$HOME/.cargo}"/registry/cache/*/$c.crate | head -1)
      mkdir -p "$l"
      tar xzf "$t" -C "$l" --strip-components=1
    fi
  fi
done
cd "$V/harness"
F=${1:-none}; O=$CARGO_TARGET_DIR/h-${F//,/-}.ll
cargo rustc --release --offline --lib --crate-type staticlib ${1:+--features "$1"} -- "--emit=llvm-ir=$O" >"$V/build/log/ir.log" 2>&1 || { tail -60 "$V/build/log/ir.log" >&2; exit 1; }
echo "$O"
