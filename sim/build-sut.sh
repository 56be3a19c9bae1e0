#!/bin/bash
# Builds the instrumented hongdown from /repo's working tree and libsim.so.  Output: $OUT/hongdown, $OUT/libsim.so
set -e
here=$(cd "$(dirname "$0")" && pwd)
REPO=${HSIM_REPO:-/repo}
OUT=${HSIM_BUILD:-$here/../.build}
mkdir -p "$OUT"; OUT=$(cd "$OUT" && pwd)
export HOME="${HOME:-/root}" LANG=C.UTF-8 PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
(
  flock 9
  export CARGO_TARGET_DIR="$OUT/sut" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 RUSTC_WRAPPER="$here/rustc-wrap.sh"
  cd "$REPO"
  # cargo trusts modification times; what was built from other text must not pass for fresh
  stamp=$( (pwd; cat Cargo.toml Cargo.lock build.rs 2>/dev/null; find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; find "$here" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$stamp" != "$(cat "$OUT/sut.stamp" 2>/dev/null)" ]; then
    rm -rf "$OUT"/sut/debug/.fingerprint/hongdown-* "$OUT/sut.stamp" "$OUT/libsim.so"
  fi
  cargo build --offline --locked --bin hongdown >"$OUT/sut.log" 2>&1 || { cat "$OUT/sut.log" >&2; exit 3; }
  cmp -s "$OUT/sut/debug/hongdown" "$OUT/hongdown" || { cp "$OUT/sut/debug/hongdown" "$OUT/hongdown.new" && mv "$OUT/hongdown.new" "$OUT/hongdown"; }
  if [ ! -e "$OUT/libsim.so" ] || [ -n "$(find "$here" -newer "$OUT/libsim.so" \( -name '*.c' -o -name '*.h' \) )" ]; then
    gcc -O2 -g -fPIC -shared -Wall -Wextra -U_FORTIFY_SOURCE -Wno-unused-parameter -Wno-nonnull -fvisibility=hidden -ftls-model=initial-exec -o "$OUT/libsim.so.new" "$here/libsim.c" -ldl
    mv "$OUT/libsim.so.new" "$OUT/libsim.so"
  fi
  echo "$stamp" >"$OUT/sut.stamp"
) 9>"$OUT/lock"
