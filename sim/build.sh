#!/bin/bash
# Builds the simulator with the real code of /repo's working tree inside it.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here" || exit 2
export RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR="${SIM_TARGET:-$here/../target}" CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_BOOTSTRAP
exec cargo build --offline --locked "$@"
