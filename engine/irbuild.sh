#!/bin/bash
# LLVM IR of the harnesses and of the code under test, from /repo's working tree
set -e
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/../ws"
export CARGO_TARGET_DIR=${VF_TARGET:-/verif/build/t}
cargo rustc --release -p h --offline --lib --crate-type cdylib $VF_FEATURES -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=--inline-threshold=25 2>&1 | tail -40
