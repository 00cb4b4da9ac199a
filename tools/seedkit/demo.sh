#!/bin/bash
# runs the cases beside this script against the library in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dbml-rs = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w"
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q 2> "$w/build.log" || { cat "$w/build.log"; exit 2; }
timeout 60 "$w/target/debug/demo" "$here/cases.txt"
