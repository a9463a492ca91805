#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [other engine arguments]
# Builds the harness against /repo's current working tree and runs one property's check.
export HOME=/root
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VP_ROOT="$ROOT"
BEVY=" P07 P08 P19 P20 P23 P24 P25 P26 P27 P28 "
P="$1"; shift
build() { # crate
  local crate="$1" T="$ROOT/target-$1" 
  mkdir -p "$T"
  # cargo only looks at mtimes; judge by content so that a restored older tree is rebuilt as well
  local h; h=$( (cd /repo && find src Cargo.toml README.md doc -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  local log="$T/build.log"
  (
    cd "$ROOT/harness/$crate" || exit 2
    if [ "$(cat "$T/stamp" 2>/dev/null)" != "$h" ]; then
      CARGO_TARGET_DIR="$T" cargo clean --offline -p procedural_modelling >/dev/null 2>&1
    fi
    CARGO_TARGET_DIR="$T" cargo build --offline >"$log" 2>&1
  )
  local rc=$?
  if [ $rc -ne 0 ]; then grep -E -A12 '^error' "$log" | head -60; echo "ERROR: the harness does not build against /repo"; rm -f "$T/stamp"; exit 2; fi
  echo "$h" > "$T/stamp"
}
crate=core
[[ "$BEVY" == *" $P "* ]] && crate=bevy
if [ "$P" = setup ]; then build core; build bevy; exit 0; fi
build $crate
ulimit -v 20000000 2>/dev/null
exec "$ROOT/target-$crate/debug/vp-$crate" "$P" "$@"
