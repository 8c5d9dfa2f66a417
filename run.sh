#!/bin/bash
# Usage: run.sh <PROPERTY> [quick|thorough]   Builds the check from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
P="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
BIN=$(echo "$P" | tr 'A-Z' 'a-z')
LOG="$PWD/target/build-$BIN.log"
mkdir -p "$PWD/target" "$PWD/evidence"
DIR=mc
if [ "$P" = C20 ]; then
    DIR=mt
    export RUSTFLAGS="--cfg rustfst_mc" CARGO_TARGET_DIR="$PWD/target/mt"
fi
BINS="--bin $BIN"
if [ "$P" = C32 ]; then
    DIR=cli
    BINS=--bins
    export CARGO_TARGET_DIR="$PWD/target/cli"
fi
if [ "$P" = C33 ]; then
    DIR=py
    BINS=--lib
    export CARGO_TARGET_DIR="$PWD/target/py"
fi
if ! (cd $DIR && cargo build --offline $BINS) >"$LOG" 2>&1; then
    grep -E '^error' -A8 "$LOG" | head -60
    echo "build of the check failed (see $LOG)"
    exit 2
fi
if [ "$P" = C33 ]; then
    # the package as it stands in /repo, next to the library just built
    PKG="$PWD/target/pypkg"
    /bin/rm -rf "$PKG" && mkdir -p "$PKG" "$PWD/target/pyscratch" || exit 2
    cp -a "${RUSTFST_PY:-/repo/rustfst-python/rustfst}" "$PKG/rustfst" && mkdir -p "$PKG/rustfst/dylib" || exit 2
    find "$PKG" \( -name '*.so' -o -name '*.pyc' \) -delete
    cp "$CARGO_TARGET_DIR/debug/libpyffi.so" "$PKG/rustfst/dylib/dylib.so" || exit 2
    export C33_SCRATCH="$PWD/target/pyscratch" PYTHONPATH="$PKG:$PWD/py" PYTHONDONTWRITEBYTECODE=1
    exec python3 py/c33.py
fi
exec "$CARGO_TARGET_DIR/debug/$BIN"
