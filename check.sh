#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds typical from /repo's working tree and the explorer, and
# runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${MC_REPO:-/repo}
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= NO_COLOR=true LC_ALL=C.UTF-8 RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export MC_VERIF=$here MC_REPO=$repo MC_BUILD=${MC_BUILD:-$here/.build}
mkdir -p "$MC_BUILD"
build() {
  # Cargo goes by modification times, so what was built of other contents is dropped.
  local now stamp=$MC_BUILD/typical.sha256
  now=$(cd "$repo" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum)
  if [ ! -f "$stamp" ] || [ "$now" != "$(cat "$stamp")" ]; then
    rm -rf "$MC_BUILD"/typical/debug/.fingerprint/typical-*
    printf '%s\n' "$now" > "$stamp"
  fi
  CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=$MC_BUILD/typical cargo build --offline --locked --manifest-path "$repo/Cargo.toml" --bin typical > "$MC_BUILD/typical.log" 2>&1 &
  local a=$!
  CARGO_TARGET_DIR=$MC_BUILD/mc cargo build --offline --manifest-path "$here/mc/Cargo.toml" > "$MC_BUILD/mc.log" 2>&1 &
  local b=$!
  wait $a || { tail -n 30 "$MC_BUILD/typical.log"; echo "typical does not build"; return 1; }
  wait $b || { tail -n 60 "$MC_BUILD/mc.log"; echo "the explorer does not build"; return 1; }
}
(
  flock 9
  build
) 9> "$MC_BUILD/lock" || exit 2
[ "${1:-}" = build ] && exit 0
exec "$MC_BUILD/mc/debug/mc" "$@"
