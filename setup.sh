#!/bin/bash
# build everything once (offline); the checks rebuild what depends on /repo
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
cargo build --release --manifest-path gsym/Cargo.toml || exit 1
mkdir -p evidence replays
# the Kani harness is optional (its job reports NOT-DECIDED without it)
(cd kani && timeout 600 cargo kani --target-dir ../target/kani --output-format terse >/dev/null 2>&1)
exit 0
