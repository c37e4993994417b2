#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
TIER=${2:-${VERIF_TIER:-quick}}
BIN=$(bash ./build.sh) || { echo "check of $1: the simulator could not be built from the working tree" >&2; exit 2; }
exec "$BIN" check "$1" "$TIER" "$(pwd)"
