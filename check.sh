#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the simulator around /repo's working tree and runs one check.
# Exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself could not run.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}" SIM_ROOT="$here"
mkdir -p "$here/evidence" "$here/target"
log="$here/target/build.$prop.log"
if ! flock "$here/target/.lock" "$here/sim/build.sh" >"$log" 2>&1; then
  if grep -q '^error: could not compile `reveaal`' "$log"; then
    # The tree under test is not a program: it has no executions, so there is nothing that could
    # violate or satisfy the property. Compiling is the build's business; say so loudly.
    echo "NOT CHECKED: /repo does not compile, so nothing was simulated for $prop:"
    grep -A6 '^error' "$log" | head -40
    python3 - "$prop" "$tier" "$VERIF_SEED" "$here" <<'P'
import json,sys
p,t,s,h=sys.argv[1:]
json.dump({"property":p,"tier":t,"seed":int(s),"level":"exploration","coverage":{"evaluations":0,"distinct_nontrivial":0,"rule":"nothing was run: /repo does not compile","samples":[]},"assumptions":["nothing was checked"],"wall_s":0.0,"violations":0},open(h+"/evidence/"+p+".json","w"),indent=1)
P
    exit 0
  fi
  echo "ERROR: the simulator could not be built"; tail -60 "$log"; exit 2
fi
exec "$here/target/debug/reveaal-sim" check "$prop" "$tier"
