#!/bin/bash
p=$1; n=$2; shift 2
cd /verif; . /opt/vp/env.sh
x=(); grep -q "^$p race" race.txt && x=(-racebin .build/sim-race)
time .build/sim run -prop $p -seed ${SEED:-1} -count $n -work .build/w -evidence evidence/$p.json -replays evidence/replays -known known_findings.txt -instr .build/i/instr.json "${x[@]}" "$@"
