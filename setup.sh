#!/bin/bash
# Builds everything once, which fills Go's build cache, and runs one execution.
cd "$(dirname "$0")" && . ./lib.sh || exit 2
sim_build race || exit 2
"$BUILD/sim" list
