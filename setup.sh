#!/bin/bash
# builds the MIR extractor and the analyser (no-op when up to date)
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS
( cd "$HERE/driver" && cargo +nightly build --offline --quiet )
( cd "$HERE/engine" && cargo build --release --offline --quiet )
