#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and run exactly the recorded run again
set -u
FILE="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID="$(grep -oE '"property": "C[0-9]+"' "$FILE" | grep -oE 'C[0-9]+')"
build_for "$ID" || exit 2
"$SIM" replay "$FILE"
