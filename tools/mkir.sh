#!/bin/bash
# mkir.sh TARGETDIR PROFILE FEATURES: builds the harness against /repo's current tree, leaving the
# LLVM IR and the shared library in TARGETDIR/PROFILE/deps.
set -e
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
# never trust time stamps for the code under test
rm -rf "$1/$2/.fingerprint"/chf-* "$1/$2/.fingerprint"/harness-*
cd "$(dirname "$0")/../harness"
cargo rustc --offline --quiet --lib --profile "$2" --no-default-features --features "$3" -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp
