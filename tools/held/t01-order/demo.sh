#!/bin/bash
# runs demo.rs (beside this file) against the crate in the current directory
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$D"' EXIT
mkdir "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cp "$REPO/Cargo.lock" "$D/"
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
curvo = { path = "$REPO", features = ["serde"] }
nalgebra = "0.33.2"
[profile.dev]
debug = 0
EOF
cd "$D" || exit 2
CARGO_TARGET_DIR="$D/target" cargo build --offline >"$D/log" 2>&1 || { tail -20 "$D/log"; exit 3; }
"$D/target/debug/demo"
