#!/bin/bash
# Builds the checker (the harness is rebuilt by every check, together with /repo's current tree).
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN="${VX_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
mkdir -p build evidence replays
cd engine && CARGO_TARGET_DIR=../build/engine cargo build --release --offline
