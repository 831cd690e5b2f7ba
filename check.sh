#!/bin/bash
# check.sh PROPERTY [sim options]: decides one property for the code in /repo's working tree.
# Exit 0: it held on everything explored; exit 1 and a VIOLATION line: it is broken; otherwise: trouble.
cd "$(dirname "$0")" && . ./lib.sh || exit 2
prop=$1; shift
race=
grep -q "^$prop race" "$VERIF/race.txt" && race=race
sim_build $race || exit 2
args=()
[ -x "$BUILD/sim-race" ] && args+=(-racebin "$BUILD/sim-race")
"$BUILD/sim" run -prop "$prop" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -work "$BUILD/work" \
    -evidence "$VERIF/evidence/$prop.json" -replays "$VERIF/evidence/replays" -known "$VERIF/known_findings.txt" \
    -instr "$BUILD/i/instr.json" "${args[@]}" "$@"
