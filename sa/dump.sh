#!/bin/bash
# Usage: dump.sh OUTDIR TARGETDIR [clean]
# Type-checks the three library crates of /repo's current tree with the MIR-dumping driver.
. /opt/vp/common.sh || exit 1
set -e
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$2"
unset CARGO_PROFILE_DEV_DEBUG
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export RUSTC_WORKSPACE_WRAPPER="$HERE/../driver/target/debug/mirdump" MIRDUMP_OUT="$1"
mkdir -p "$1"
if [ "$3" = clean ]; then
    cargo clean --offline -p tket -p tket-qsystem -p selene-hugr-qis-compiler
fi
exec cargo check -p tket -p tket-qsystem -p selene-hugr-qis-compiler --lib --all-features --offline
