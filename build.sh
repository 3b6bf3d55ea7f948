#!/bin/bash
# Builds the simulator against /repo's current working tree (offline). The binary: $BVSIM_TARGET/debug/bvsim
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
export BVSIM_TARGET="${BVSIM_TARGET:-$here/target}"
export CARGO_TARGET_DIR="$BVSIM_TARGET" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="--cap-lints=allow" RUSTC_WRAPPER="$here/sim/wrap.sh"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$BVSIM_TARGET"
if ! flock "$BVSIM_TARGET/.bvsim.lock" cargo build --offline -q --manifest-path "$here/sim/Cargo.toml" >"$BVSIM_TARGET/build.log" 2>&1; then
  echo "build failed:" >&2
  tail -n 40 "$BVSIM_TARGET/build.log" >&2
  exit 2
fi
