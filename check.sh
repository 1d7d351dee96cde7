#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild from /repo's working tree, then decide the property
cd "$(dirname "$0")" || exit 2
export GSYM_ROOT="$PWD" GSYM_REPO="${GSYM_REPO:-/repo}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
exec 9>"$PWD/.lock" && flock 9
# cargo trusts time stamps; the tree may have been exchanged underneath it
rm -rf "$PWD"/target/release/.fingerprint/groth-sahai-* "$PWD"/target/release/.fingerprint/gsym-*
rm -rf "$PWD"/target/kani/kani/*/debug/build/groth-sahai* "$PWD"/target/kani/kani/*/debug/build/gskani*
log=$(cargo build --release --manifest-path gsym/Cargo.toml 2>&1) || { echo "$log" | grep -E "^error" -A12 | head -60; echo "ERROR the harness does not build against $GSYM_REPO"; exit 2; }
flock -u 9
exec ./target/release/gsym check "$1" "$2"
