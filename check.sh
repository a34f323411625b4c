#!/bin/bash
# check.sh <property> [--replay stream:case]
# Rebuilds the harness against /repo's working tree and runs the monitors of one property.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export RV_ROOT="$PWD"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
prop="$1"
case "$prop" in
  C17) exec bash tools/c17.sh "$@" ;;
esac
mkdir -p target evidence replays
log="target/build-$prop.log"
feat=()
case "$prop" in
  C06|C10|C13|C15|C18|C20)
    # GSSAPI needs bindgen and the Kerberos headers; without them (or if only that feature is broken) the rest is still checked
    if (cd harness && CARGO_TARGET_DIR="$RV_ROOT/target/gss" cargo build --offline --features gssapi) >"$log" 2>&1; then
      feat=(--features gssapi)
      export CARGO_TARGET_DIR="$PWD/target/gss"
    else
      echo "note: rsasl does not build with the feature gssapi, checking without it" >&2
      export RV_NO_GSS=1
    fi ;;
esac
if [ -z "${feat[*]}" ] && ! (cd harness && cargo build --offline) >"$log" 2>&1; then
  echo "INTERNAL: the harness does not build against /repo" >&2
  tail -40 "$log" >&2
  exit 2
fi
if [ "$prop" = C16 ]; then
  RV_TSAN_BIN=$(bash tools/sanbuild.sh thread) || exit 2
  export RV_TSAN_BIN
fi
if [ "$VERIF_TIER" = thorough ] || [[ "$3" = release/* ]]; then
  case "$prop" in
    C22) ;;
    *)
      # and as released: without debug assertions and overflow checks
      (cd harness && cargo build --offline --release "${feat[@]}") >>"$log" 2>&1 || { tail -40 "$log" >&2; exit 2; }
      export RV_REL_BIN="$CARGO_TARGET_DIR/release/rv" ;;
  esac
fi
"$CARGO_TARGET_DIR/debug/rv" "$@"
rc=$?
case $rc in
  132|133|134|135|136|139)
    # the monitored process itself was ended (abort, illegal instruction, bad memory access): no caller survives that
    mkdir -p replays
    printf '{"property":"%s","signature":"process-died","signal":%d,"seed":"%s"}\n' "$prop" $((rc - 128)) "${VERIF_SEED:-}" >"replays/$prop-died.json"
    echo "VIOLATION property=$prop replay=$PWD/replays/$prop-died.json"
    exit 1 ;;
esac
exit $rc
