#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/gsdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cat "$here/prelude.rs" "$here/demo.rs" > "$t/src/main.rs"
cp "$here/lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "gsdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
groth-sahai = { path = "$repo" }
ark-ec = { version = "=0.5.0", default-features = false }
ark-ff = { version = "=0.5.0", default-features = false }
ark-std = { version = "=0.5.0", default-features = false }
ark-serialize = { version = "=0.5.0", features = ["derive"] }
ark-bls12-381 = { version = "=0.5.0" }
rayon = "1"
[profile.release]
opt-level = 1
T
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" timeout 250 cargo build --release --quiet --manifest-path "$t/Cargo.toml" || exit 3
timeout 120 "$t/target/release/gsdemo"
