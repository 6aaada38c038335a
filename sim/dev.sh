#!/bin/bash
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER=$PWD/rustc-wrap.sh CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
cargo build --offline 2>&1 | grep -A9 -E "^error" | head -${1:-80}
