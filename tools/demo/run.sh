#!/bin/bash
# builds the program beside this file against the library in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
mkdir "$S/src"
cp "$D"/*.rs "$S/src/"
F=
grep -q '^// feature debug-images' "$D/main.rs" && F=', features = ["debug-images"]'
cat > "$S/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bardecoder = { path = "$R"$F }
log = "0.4"
image = { version = "0.24", default-features = false }
anyhow = "1"
[profile.dev]
debug = false
E
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$S/Cargo.lock"
cd "$S" && CARGO_TARGET_DIR="$S/t" cargo build --offline -q 2>"$S/err" || { cat "$S/err"; exit 4; }
TMPDIR="$S" timeout 200 "$S/t/debug/demo"
