#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true; unset CARGO_TARGET_DIR RUSTFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'find "$w" -delete' EXIT
mkdir -p "$w/src"; cp "$here"/*.rs "$w/src/"
feat=$(cat "$here/features" 2>/dev/null || echo "default-features = false")
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
jpeg-decoder = { path = "$repo", $feat }
[profile.dev]
debug-assertions = true
overflow-checks = true
[workspace]
T
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cd "$w" && cargo build --offline -q 2>"$w/log" || { cargo build --offline 2>&1 | tail -30; exit 3; }
timeout -k 5 120 ./target/debug/demo
