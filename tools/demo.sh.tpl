#!/bin/bash
# Build and run main.rs, which lies beside this file, against the library in the
# current directory. Everything is written to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" "$dir/work"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_xlsxwriter = { path = "$repo", features = [FEATURES] }
zip = { version = "*", default-features = false, features = ["deflate"] }
EXTRA
[profile.dev]
opt-level = 0
debug = 0
T
cd "$dir" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --offline -q || { rm -f Cargo.lock; cargo build --offline -q || exit 2; }
cd "$dir/work" || exit 2
"$dir/target/debug/demo"
