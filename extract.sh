#!/bin/bash
# usage: extract.sh OUT   -- lower /repo (via the harness crate) to OUT
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$S/lib RUSTC_WRAPPER=$HERE/driver/target/debug/mirdump
case $1 in /*) O=$1;; *) O=$PWD/$1;; esac
export MIRDUMP_OUT=$O RUSTFLAGS="-Awarnings -Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Zmir-enable-passes=-CheckAlignment,-CheckNull"
export CARGO_TARGET_DIR=${VERIF_TARGET:-$HERE/.work/extract-target} CARGO_INCREMENTAL=0
unset RUSTUP_TOOLCHAIN
cd "$HERE/harness"
touch src/lib.rs
cargo +nightly check --offline --quiet $VERIF_CARGO >&2
