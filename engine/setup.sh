#!/bin/bash
# builds what the checks share: dependencies of the harness crate (as LLVM IR) and of the replay program
d=$(cd "$(dirname "$0")/.." && pwd)
. "$d/engine/env.sh"
bash "$d/engine/irbuild.sh" > /dev/null 2>&1
cd "$d/ws" && CARGO_TARGET_DIR="$d/build/n" cargo build -p replay --profile native --offline > /dev/null 2>&1
exit 0
