#!/bin/bash
# Builds the driver (hsim) into $HSIM_BUILD/driver.
here=$(cd "$(dirname "$0")/.." && pwd)
OUT=${HSIM_BUILD:-$here/.build}
mkdir -p "$OUT"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin${PATH:+:$PATH}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$here/driver" && CARGO_TARGET_DIR="$OUT/driver" cargo build --release --offline --locked >"$OUT/driver.log" 2>&1 || { cat "$OUT/driver.log" >&2; exit 3; }
