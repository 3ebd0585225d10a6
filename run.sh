#!/bin/bash
# run.sh build | check <property> [quick|thorough] [runs] | replay <file> | list | explore ...
# Rebuilds the simulator from /repo's working tree, then runs it.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR/sim" || exit 2
export CARGO_NET_OFFLINE=true
if ! cargo build --offline --release >"/tmp/sim-build.$$.log" 2>&1; then
    cat "/tmp/sim-build.$$.log" >&2; rm -f "/tmp/sim-build.$$.log"
    echo "the simulator does not build" >&2
    exit 2
fi
rm -f "/tmp/sim-build.$$.log"
[ "$1" = build ] && exit 0
exec "$VERIF_DIR/sim/target/release/sim" "$@"
