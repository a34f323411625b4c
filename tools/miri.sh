#!/bin/bash
# miri.sh <property>: runs the harness under Miri (streams in RV_ONLY); with --build only compiles it
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here/harness" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$here/target/miri" RUSTFLAGS=-Awarnings
export MIRIFLAGS="${MIRIFLAGS:--Zmiri-disable-isolation}"
if [ "$1" = --build ]; then
  # the run of a program that does nothing compiles everything
  RV_ONLY=none=1 exec cargo miri run -q --offline -- C17
fi
exec cargo miri run -q --offline -- "$1"
