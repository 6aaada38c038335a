#!/bin/bash
# Builds everything once; checks rebuild what changed in /repo.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
mkdir -p "$here/target"
"$here/sim/build.sh" >"$here/target/setup.log" 2>&1 || { tail -40 "$here/target/setup.log"; grep -q 'could not compile `reveaal`' "$here/target/setup.log" && exit 0; exit 2; }
echo built
