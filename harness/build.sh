#!/bin/bash
# builds the harness from /repo's current tree and disassembles the whole-program module
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable
T=${VF_TARGET:-/verif/work/harness}
mkdir -p "$T"
export CARGO_TARGET_DIR="$T" RUSTFLAGS="--cfg osmio_verif -C save-temps -C no-vectorize-loops -C no-vectorize-slp"
cargo build --release --offline "$@"
