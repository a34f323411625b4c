#!/bin/bash
# run with cwd /repo: exit 0 if the property holds in this scenario, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock.txt" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rsasl = { path = "$repo", default-features = false, features = ["config_builder", "scram-sha-1", "scram-sha-2", "anonymous", "external", "oauthbearer", "xoauth2", "plain", "login", "provider_base64", "unstable_custom_mechanism"@FEAT@] }
hmac = "0.12.1"
sha2 = "0.10.8"
base64 = "0.22.1"
core2 = "0.4.0"
libc = "0.2"
[profile.dev]
debug = false
T
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.82.0 CARGO_TARGET_DIR="$tmp/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$tmp" || exit 9
timeout 200 cargo run -q --offline 2>&1 | tail -30
exit "${PIPESTATUS[0]}"
