#!/bin/bash
# usage: bash check.sh ID [quick|thorough]
# Exit 0: held on every case. Exit 1: VIOLATION line. Anything else: error.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
bash "$VERIF/build.sh" || { echo "ERROR property=$ID: the harness does not build against /repo" >&2; exit 2; }
set -- "checked=$VERIF/target/checked/checked/harness" "release=$VERIF/target/release/release/harness"
if [ -x "$VERIF/target/guided/guided/harness" ]; then
    set -- "$@" "guided=$VERIF/target/guided/guided/harness"
fi
exec "$VERIF/target/checked/checked/harness" check "$ID" "$TIER" "$SEED" "$VERIF" "$@"
