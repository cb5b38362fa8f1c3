#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the monitors with /repo's working tree and run one check
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
cd "$here" || exit 2
mkdir -p evidence target
log="$here/target/build.$$.log"
if ! (cd harness && cargo build --offline) >"$log" 2>&1; then
    tail -n 40 "$log"
    rm -f "$log"
    echo "check $1: the monitors do not build with this tree"
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/spade-monitor" check "$1" ${2:+"$2"}
