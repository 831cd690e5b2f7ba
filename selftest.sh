#!/bin/bash
# selftest.sh [options]: every execution must give the same history whatever the number of workers.
cd "$(dirname "$0")" && . ./lib.sh || exit 2
sim_build race || exit 2
"$BUILD/sim" selftest -racebin "$BUILD/sim-race" -work "$BUILD/work" "$@"
