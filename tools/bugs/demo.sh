#!/bin/bash
# Builds a small program against the crate in the current directory and runs it (scratch directory removed afterwards).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" || exit 2
cp "$here"/*.rs "$work/src/" || exit 2
cp "$repo/Cargo.lock" "$work/" || exit 2
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dynamixel2 = { path = "$repo" }
[workspace]
EOF
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
cargo build -q --offline || exit 2
timeout 60 "$work/target/debug/demo"
