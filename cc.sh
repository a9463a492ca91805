#!/bin/bash
# developer helper: build and run the core harness only
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=/verif/target-core
(cd /verif/harness/core && cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -90)
[ "${PIPESTATUS[0]}" = 0 ] || exit 1
export VP_ROOT=/verif
p=$1; shift
/verif/target-core/debug/vp-core $p "$@"
