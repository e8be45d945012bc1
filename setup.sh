#!/bin/bash
# Builds the harnesses once, offline, from the committed files.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=$PWD/.build/mc CARGO_NET_OFFLINE=true
mkdir -p .build evidence
(cd mc && cargo build --offline --locked --release) || exit 1
export CARGO_TARGET_DIR=$PWD/.build/work
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
(cd work && cargo build --offline --locked --release --target x86_64-unknown-linux-gnu) || exit 1
unset RUSTFLAGS
cd ub && CARGO_TARGET_DIR=$PWD/../.build/ub cargo +nightly miri run --offline --locked --release -- list quick
