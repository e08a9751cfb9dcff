#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds, nonzero otherwise
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/laby-demo.XXXXXX") || exit 9
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
laby = { path = "$repo/laby" }
laby_common = { path = "$repo/laby_common" }
[profile.release]
debug-assertions = false
[workspace]
EOF
cd "$d" || exit 9
CARGO_TARGET_DIR="$d/target" cargo build --offline --release -q 2> "$d/log" || { cat "$d/log"; exit 8; }
timeout 250 "$d/target/release/demo"
