#!/bin/bash
# c17.sh C17 [--replay child:n] : builds the harness four ways and runs the C17 orchestrator
cd "$(dirname "$0")/.." || exit 2
mkdir -p target evidence replays
export RV_ROOT="$PWD"
bash tools/sanbuild.sh address >target/asan.path 2>target/asan.err & a=$!
bash tools/sanbuild.sh memory >target/msan.path 2>target/msan.err & m=$!
bash tools/miri.sh --build >target/build-miri.log 2>&1 & i=$!
if ! (cd harness && CARGO_TARGET_DIR="$RV_ROOT/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0 cargo build --offline) >target/build-C17.log 2>&1; then
  echo "INTERNAL: the harness does not build against /repo" >&2
  tail -40 target/build-C17.log >&2
  kill $a $m $i 2>/dev/null
  exit 2
fi
bad=0
wait $a || { cat target/asan.err >&2; bad=1; }
wait $m || { cat target/msan.err >&2; bad=1; }
if ! wait $i && ! grep -q "error: Undefined Behavior" target/build-miri.log; then
  echo "INTERNAL: the harness does not run under Miri" >&2
  tail -30 target/build-miri.log >&2
  bad=1
fi
[ $bad = 0 ] || exit 2
RV_ASAN_BIN=$(cat target/asan.path) RV_MSAN_BIN=$(cat target/msan.path)
export RV_ASAN_BIN RV_MSAN_BIN
exec target/debug/rv "$@"
