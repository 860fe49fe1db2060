#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
kdl = { path = "$repo", features = ["v1-fallback"] }
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = false
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" cargo run -q --offline
