#!/bin/bash
# Builds the harness and the linker, so that the checks start from warm caches.
d=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$d RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
(cd "$d/harness" && cargo build --release --offline --locked --target-dir "$d/build/harness") || exit 1
exec "$d/build/harness/release/dldcheck" build
