#!/bin/bash
# Builds the small program beside this file against the crate in the current directory and runs it.
# Exit 0: the property held.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cmacro = { path = "$repo" }
proc-macro2 = "1"
quote = "1"
syn = { version = "2", features = ["full"] }
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" || exit 2
cargo build --offline -q >"$work/log" 2>&1 || { cat "$work/log"; exit 2; }
timeout 60 "$work/target/debug/demo"
