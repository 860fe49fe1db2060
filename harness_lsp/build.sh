#!/bin/bash
# Builds the driver and, from /repo, the language server it speaks to.
cd "$(dirname "$0")" || exit 2
CARGO_TARGET_DIR=$PWD/target cargo build --release --offline --locked || exit 1
CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 cargo build --manifest-path /repo/tools/kdl-lsp/Cargo.toml --bin kdl-lsp --target-dir $PWD/target/lsp --offline --locked
