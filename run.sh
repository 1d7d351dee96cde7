#!/bin/bash
# development: build and run one property
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/gsym && cargo build --release 2>&1 | grep -E "^error" -A12
exec /verif/target/release/gsym check "$@"
