#!/bin/bash
# Builds the symbolic execution engine.
set -e
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$(dirname "$0")/../symex"
CARGO_TARGET_DIR=../.build/engine cargo build --release --offline --quiet
