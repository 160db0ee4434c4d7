#!/bin/bash
# builds every harness binary, offline, from the committed files and /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$PWD/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p evidence
cargo build --offline --manifest-path harness/Cargo.toml --bins 2>&1 | tail -3
exit ${PIPESTATUS[0]}
