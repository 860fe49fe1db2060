#!/bin/bash
# Runs main.py (beside this file) against the language server of the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true cargo build -q -p kdl-lsp --bin kdl-lsp --offline --locked --target-dir "$d/target" || exit 2
KDL_LSP="$d/target/debug/kdl-lsp" timeout 60 python3 "$here/main.py"
