#!/bin/bash
# runs the cases beside this script against a copy of the library in which the relation query is exported
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" "$w/lib"
cp -r "$repo/src" "$repo/Cargo.toml" "$w/lib/"
echo 'pub use analyzer::analyze as analyze_exported;' >> "$w/lib/src/lib.rs"
echo 'pub use utils::get_table_refs as get_table_refs_exported;' >> "$w/lib/src/lib.rs"
cp "$here/main.rs" "$w/demo/src/main.rs"
cat > "$w/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dbml-rs = { path = "$w/lib" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/demo/Cargo.lock"
cd "$w/demo"
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q 2> "$w/build.log" || { cat "$w/build.log"; exit 2; }
timeout 60 "$w/target/debug/demo" "$here/cases.txt"
