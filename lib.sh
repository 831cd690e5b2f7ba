# Sourced by the other scripts: builds the simulator around the code in /repo's working tree.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo} # another tree only for trying out changes
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GORACE= GODEBUG=
BUILD=
cleanup() { [ -n "$BUILD" ] && [ -d "$BUILD" ] && rm -rf "$BUILD"; }
# sim_build: instruments /repo and builds $BUILD/sim (and $BUILD/sim-race when $1 is "race", or when
# the code starts goroutines)
sim_build() {
    mkdir -p "$VERIF/.build" || return 2
    BUILD=$(mktemp -d "$VERIF/.build/run.XXXXXX") || return 2
    trap cleanup EXIT
    (cd "$VERIF/instr" && go build -o "$BUILD/instr" .) || return 2
    "$BUILD/instr" -repo "$REPO" -out "$BUILD/i" -export "$VERIF/export" -std "$VERIF/sim/std" -goroot "$(go env GOROOT)" || return 2
    mkdir -p "$BUILD/work"
    local mod=()
    if [ "$REPO" != /repo ]; then
        sed "s#=> /repo#=> $REPO#" "$VERIF/sim/go.mod" >"$BUILD/go.mod" && cp "$VERIF/sim/go.sum" "$BUILD/go.sum" || return 2
        mod=(-modfile "$BUILD/go.mod")
    fi
    (cd "$VERIF/sim" && go build "${mod[@]}" -overlay "$BUILD/i/overlay.json" -o "$BUILD/sim" .) || return 2
    if [ "$1" = race ] || ! grep -q '"go_statements":0,' "$BUILD/i/instr.json"; then
        (cd "$VERIF/sim" && go build "${mod[@]}" -race -overlay "$BUILD/i/overlay-race.json" -o "$BUILD/sim-race" .) || return 2
    fi
}
