#!/bin/bash
# check.sh ID quick|thorough [--replay CASE]: rebuilds the harness against /repo and runs one check.
# Exit 0: held on everything explored; 1: VIOLATION; anything else: error of the check.
cd "$(dirname "$0")" || exit 2
root=$PWD
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export CARGO_TARGET_DIR=$root/.build/mc CARGO_NET_OFFLINE=true
mkdir -p .build evidence
[ "$id" = C22 ] && exec python3 tools/c22.py "$tier" "${@:3}"
[ "$id" = C30 ] && { unset CARGO_TARGET_DIR; exec python3 tools/c30.py "$tier" "${@:3}"; }
crate=mc bin=$CARGO_TARGET_DIR/release/mc target=()
case $id in C26|C27) # every basic block counted
  crate=work target=(--target x86_64-unknown-linux-gnu)
  export CARGO_TARGET_DIR=$root/.build/work
  export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
  bin=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/work;;
esac
if ! (cd $crate && cargo build --offline --locked --release "${target[@]}" >"$root/.build/build.$id.log" 2>&1); then
  tail -40 ".build/build.$id.log"; echo "ERROR: the harness does not build against /repo"; exit 2
fi
if [ "$3" = --replay ]; then exec "$bin" replay "$id" "$tier" "$4"; fi
exec "$bin" check "$id" "$tier" "$root"
