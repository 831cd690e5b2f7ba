#!/bin/bash
# dev: builds the simulator (with race detector) around another tree: x.sh TREE OUTDIR
cd /verif && . ./lib.sh && VERIF_REPO=$1 && REPO=$1
sim_build race || exit 1
mkdir -p $2 && cp -r $BUILD/sim $BUILD/sim-race $BUILD/i $2/
