#!/bin/bash
# check.sh ID [quick|thorough]: build from /repo's working tree, run the simulation, 0 held / 1 violated
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
build_for "$ID" || { echo "check.sh: /repo or the simulator does not build" >&2; exit 2; }
"$SIM" check --property "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}"
