#!/bin/bash
# development helper: build the harness
cd /verif/harness; RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target cargo build --offline 2>&1 | grep -E -A6 "^error|Finished" | head -${1:-60}
