#!/bin/bash
# plant.sh <seeded id>: confirms a planted bug in a scratch copy of /repo: builds, passes the stable
# tests, the demonstration fails with it and passes without it.
set -u
ID=$1; D=/verif/seeded/$ID; S=/tmp/plant.$ID
mkdir -p "$S"; rsync -a --delete --exclude target --exclude .git /repo/ "$S/repo/" 2>/dev/null || { rm -rf "$S/repo"; mkdir -p "$S/repo"; cp -a /repo/src /repo/examples /repo/Cargo.toml /repo/Cargo.lock /repo/README.md "$S/repo/"; }
mkdir -p "$S/demo"; cp "$D"/* "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd "$S/repo" || exit 2
export CARGO_NET_OFFLINE=true
bash "$S/demo/demo.sh" > "$S/clean.log" 2>&1; C=$?
git init -q . 2>/dev/null; git apply "$D/patch.diff" || { echo "$ID: does not apply"; exit 1; }
bash "$S/demo/demo.sh" > "$S/bug.log" 2>&1; B=$?
mkdir -p /tmp/plant.target
CARGO_TARGET_DIR=/tmp/plant.target CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 600 cargo test --offline -- --test-threads 1 > "$S/test.log" 2>&1; T=$?
echo "$ID: demo clean=$C (want 0) bug=$B (want !=0) tests=$T (want 0)"
tail -5 "$S/bug.log"
if [ $C = 0 ] && [ $B != 0 ] && [ $T = 0 ]; then echo "$ID: OK"; rm -rf "$S"; else echo "$ID: NOT OK, see $S"; fi
