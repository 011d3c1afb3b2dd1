#!/bin/bash
# usage: check.sh <property> | check.sh replay <file>
# Builds the harness and the linker from /repo's working tree, then runs one check.
d=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$d
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
if ! log=$(cd "$d/harness" && cargo build --release --offline --locked --target-dir "$d/build/harness" 2>&1); then
    echo "$log" >&2
    exit 2
fi
case $1 in
replay | dump) exec "$d/build/harness/release/dldcheck" "$@" ;;
*) exec "$d/build/harness/release/dldcheck" check "$1" ;;
esac
