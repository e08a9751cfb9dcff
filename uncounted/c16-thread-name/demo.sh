#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds, nonzero otherwise
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/laby-demo.XXXXXX") || exit 9
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
laby = { path = "$repo/laby" }
laby_common = { path = "$repo/laby_common" }
[workspace]
EOF
cd "$d" || exit 9
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 8; }
for i in 1 2 3 4 5 6 7 8; do
    touch src/main.rs
    RUSTC_BOOTSTRAP=1 cargo rustc --offline -q -- -Zunpretty=expanded > "$d/$i.out" 2> "$d/log" || { cat "$d/log"; exit 8; }
    cmp "$d/1.out" "$d/$i.out" || exit 1
done

{ echo '#![allow(unused)]'; echo 'use laby::*;'; echo 'fn main() {'; for i in $(seq 200); do echo 'let a = frag_match!(if true { 1 } else { 2 });'; done; echo '}'; } > src/main.rs
a=$(RUSTC_BOOTSTRAP=1 cargo rustc --offline -q -- -Zunpretty=expanded 2> /dev/null | grep -o 'let mut __variant[a-z_0-9]*' | sort -u | grep -c .)
[ "$a" = 2 ] || { echo "$a"; exit 1; }

exit 0
