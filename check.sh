#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]: build the harness against /repo's working tree, decide one property
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_ROOT=$PWD RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$PWD/target
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
BIN=$(python3 -c 'import json,sys; print(json.load(open("harness/meta.json"))[sys.argv[1]]["bin"])' "$ID") || exit 2
mkdir -p evidence
LOG=$(mktemp)
if ! cargo build --offline --manifest-path harness/Cargo.toml --bin "$BIN" >"$LOG" 2>&1; then
  tail -60 "$LOG"
  rm -f "$LOG"
  echo "ERROR: the harness does not build against /repo's working tree"
  exit 2
fi
rm -f "$LOG"
exec "target/debug/$BIN" "$ID"
