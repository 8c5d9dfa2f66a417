#!/bin/bash
# Builds the dependencies of the checks once (each check also builds itself).
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS
(cd mc && cargo build --offline --lib) 2>&1 | tail -3
(cd mt && RUSTFLAGS="--cfg rustfst_mc" CARGO_TARGET_DIR="$PWD/../target/mt" cargo build --offline --lib) 2>&1 | tail -3
(cd cli && CARGO_TARGET_DIR="$PWD/../target/cli" cargo build --offline --bins) 2>&1 | tail -3
(cd py && CARGO_TARGET_DIR="$PWD/../target/py" cargo build --offline --lib) 2>&1 | tail -3
exit 0
