#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
mysql-connector = { path = "$repo", default-features = false, features = ["caching-sha2-password", "serde"] }
tokio = { version = "1", features = ["io-util"] }
chrono = "0.4"
TOML
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
cargo build -q --offline || exit 2
timeout 120 "$tmp/target/debug/demo"
