#!/bin/bash
# dev helper: build a bin
cd /verif/harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/target cargo build --offline --bin $1 2>&1 | grep -E "^error|^warning: unused" -A9 | head -${2:-60}
