#!/bin/bash
# Builds all harnesses, offline.
export HOME=${HOME:-/root}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
cd "$(dirname "$0")/harness" || exit 1
exec cargo build --offline --bins
