#!/bin/bash
# seedtest.sh ID: confirms a planted bug in the scratch copy /tmp/sc/repo
# (patch applies, tests pass, demo passes without and fails with the patch).
[ -d /tmp/sc/repo ] || { mkdir -p /tmp/sc; cp -a /repo /tmp/sc/repo; }
S=/verif/seeded/$1
cd /tmp/sc/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 2
D=$(mktemp -d); cp "$S"/* "$D"; rm -f "$D"/patch.diff "$D"/meta.json
bash "$D/demo.sh" >/tmp/sc/clean.log 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$1: PATCH DOES NOT APPLY"; exit 1; }
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
find src -name '*.rs' | xargs touch
cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 >/tmp/sc/test.log 2>&1; t=$?
bash "$D/demo.sh" >/tmp/sc/bug.log 2>&1; b=$?
git checkout -q -- .
rm -rf "$D"
echo "$1: demo clean=$a tests=$t demo bug=$b $([ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"
