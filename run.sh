#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# Builds the monitor and runs one check against /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=${VERIF_DIR:-$here}
tmp=$(mktemp -d /tmp/vmon-bin-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/mon" && go build -o "$tmp/mon" .) || { echo "CHECK-ERROR: the monitor does not build"; exit 2; }
cd "$tmp" && ./mon "$1"
