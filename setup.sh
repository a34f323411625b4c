#!/bin/bash
# builds the harness once (every check rebuilds what it needs anyway)
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0 CARGO_TARGET_DIR="$PWD/target"
mkdir -p evidence replays
cd harness && cargo build --offline
