#!/bin/bash
# Usage: check.sh ID [quick|thorough]   run one property's check
#        check.sh replay FILE           re-run one saved case
#        check.sh build                 build only
# The harness is rebuilt from /repo's working tree every time.
cd "$(dirname "$0")" || exit 3
export HOME="${HOME:-/root}" LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR="$PWD/target" VP_DIR="$PWD"
log="$PWD/target/build.$$.log"
mkdir -p target
if ! cargo build --offline --locked --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    grep -E '^error' -A6 "$log" | head -60
    echo "ERROR: the harness does not build against /repo"
    rm -f "$log"
    exit 3
fi
rm -f "$log"
ulimit -v 3500000 2>/dev/null
ulimit -c 0 2>/dev/null
case "$1" in
    build) exit 0 ;;
    replay) exec target/debug/vp replay "$2" ;;
    *) exec target/debug/vp check "$@" ;;
esac
