#!/bin/bash
# dev: runs the check of each planted bug's property against a copy of /repo with the bug: seeds.sh [ids...]
cd /verif; T=$(mktemp -d /tmp/seeds.XXXXXX); trap 'rm -rf "$T"' EXIT
for s in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
    rm -rf "$T/r" "$T/o"; cp -a /repo "$T/r"; git -C "$T/r" apply "/verif/seeded/$s/patch.diff" || { echo "$s: patch does not apply"; continue; }
    tools/x.sh "$T/r" "$T/o" >"$T/log" 2>&1 || { echo "$s: build failed"; tail -3 "$T/log"; continue; }
    for q in $p $EXTRA; do
    mkdir -p "$T/w"
    race=; (grep -q "^$q race" race.txt || ! grep -q '"go_statements":0,' $T/o/i/instr.json) && race="-racebin $T/o/sim-race"
    t0=$(date +%s)
    (cd $T/o; ./sim run -prop $q -work $T/w -evidence $T/ev -replays $T/rep -known /dev/null -instr i/instr.json $race) >"$T/log" 2>&1
    echo "$s $q exit $? $(($(date +%s)-t0)) s $(grep -v '^seed' $T/log | head -1 | cut -c1-150)"
    done
done
