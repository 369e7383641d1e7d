#!/bin/bash
# check.sh <ID> [args]: builds the harness of one property from /repo's working tree and runs it.
ID=${1:?usage: check.sh ID}
shift
export HOME=${HOME:-/root}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
cd "$VERIF_DIR/harness" || exit 2
if ! cargo build --offline --quiet --bin "$BIN" 1>&2; then
    echo "$ID: the harness does not build" >&2
    exit 2
fi
exec "$VERIF_DIR/target/debug/$BIN" "$@"
