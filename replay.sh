#!/bin/bash
# replay.sh FILE: re-executes a replay file against the code in /repo's working tree.
# Exit 1 and a VIOLATION line when the violation reproduces.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" && . ./lib.sh || exit 2
race=
grep -q '"race_detector": true' "$f" && race=race
sim_build $race || exit 2
"$BUILD/sim" replay -racebin "$BUILD/sim-race" -work "$BUILD/work" "$f"
