#!/bin/bash
# Runs demo.rs, which lies beside this file, as a test of the crate in /repo.
# Everything happens in a scratch directory; built dependencies are reused.
D=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= RUST_BACKTRACE=0
S=$(mktemp -d) || exit 99
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/c/tests" || exit 99
cp -r /repo/src /repo/Cargo.toml "$S/c/" || exit 99
cp /repo/Cargo.lock "$S/c/" 2>/dev/null || cp /opt/vp/Cargo.lock "$S/c/" || exit 99
cp "$D/demo.rs" "$S/c/tests/demo.rs" || exit 99
cd "$S/c" || exit 99
CARGO_TARGET_DIR=/repo/target timeout 280 cargo test --offline --test demo 2>&1 | tail -n 25
exit "${PIPESTATUS[0]}"
