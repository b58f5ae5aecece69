#!/bin/bash
# Runs main.rs against the crate in the current directory; exit 0 = behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
conch-parser = { path = "$repo" }
T
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
unset RUSTFLAGS
cd "$work" || exit 2
cargo build --offline --quiet 2>"$work/log" || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
