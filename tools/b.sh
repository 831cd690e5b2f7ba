#!/bin/bash
# dev build
. /opt/vp/env.sh; export GOFLAGS=-mod=mod
cd /verif/instr && mkdir -p ../.build && go build -o ../.build/instr . && ../.build/instr -repo ${VERIF_REPO:-/repo} -out /verif/.build/i -export /verif/export -std /verif/sim/std -goroot $(go env GOROOT) &&
cd /verif/sim && go vet -mod=mod -overlay /verif/.build/i/overlay.json . && go build -mod=mod -overlay /verif/.build/i/overlay.json -o /verif/.build/sim . || exit 1
[ "$1" != race ] || go build -race -mod=mod -overlay /verif/.build/i/overlay-race.json -o /verif/.build/sim-race .
