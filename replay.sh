#!/bin/bash
# usage: bash replay.sh FILE   (exit 1 if the recorded case still fails)
set -u
FILE=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
bash "$VERIF/build.sh" || exit 2
exec "$VERIF/target/checked/checked/harness" replay "$FILE" "$VERIF" \
    "checked=$VERIF/target/checked/checked/harness" "release=$VERIF/target/release/release/harness" \
    "guided=$VERIF/target/guided/guided/harness"
