#!/bin/bash
# Builds the simulator (twice, see env.sh), the command under test and the interposer, offline
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_sim && build_cli && { build_counting || true; }
