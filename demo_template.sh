#!/bin/bash
# Runs demo.rs as a test inside of a scratch copy of the crate in the current directory.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/crate" && cp -r src examples Cargo.toml "$T/crate/" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$T/crate/"
# The first line of demo.rs names the module which the test has to be in
PARENT=$(sed -n '1s,^// in: ,,p' "$HERE/demo.rs")
echo "#[cfg(test)] #[path = \"$HERE/demo.rs\"] mod planted_demo;" >> "$T/crate/src/${PARENT:-lib.rs}"
cd "$T/crate" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
timeout 280 cargo test --offline --lib planted_demo
