#!/bin/bash
# sanbuild.sh thread|address|memory : builds the harness (and std) with a sanitizer, prints the binary's path
cd "$(dirname "$0")/.." || exit 2
kind="$1"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$PWD/target/$kind"
export RUSTFLAGS="-Zsanitizer=$kind -Awarnings"
[ "$kind" = memory ] && RUSTFLAGS+=" -Zsanitizer-memory-track-origins"
mkdir -p target
std=()
[ "$kind" != address ] && std=(-Zbuild-std)
if ! (cd harness && cargo build --offline "${std[@]}" --target x86_64-unknown-linux-gnu) >"target/build-$kind.log" 2>&1; then
  echo "INTERNAL: the harness does not build with -Zsanitizer=$kind" >&2
  tail -30 "target/build-$kind.log" >&2
  exit 2
fi
echo "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/rv"
