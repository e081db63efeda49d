#!/bin/bash
# build.sh release|dbg : builds the checker against /repo's working tree (hooks on)
export HOME=/root PATH=/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_OPT_LEVEL
export RUSTFLAGS="--cfg zksql_verif -Awarnings"
D="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$D/harness/target"
p=$1
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.zkv.lock"; flock 9
# never trust file times for the code under test
rm -rf "$CARGO_TARGET_DIR/$p"/.fingerprint/zk_sql-* "$CARGO_TARGET_DIR/$p"/.fingerprint/zkv-*
cd "$D/harness" || exit 3
log=$(mktemp)
if ! cargo build --offline --profile "$p" >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "ERROR: build of the checker failed"; exit 3
fi
rm -f "$log"
