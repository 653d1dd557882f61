#!/bin/bash
# run_check.sh <PROPERTY> [quick|thorough]: build the checker against /repo's working tree, run it.
# Exit: 0 held, 1 VIOLATION, anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" MC_LENIENT=1
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}
case $PROP in
  M*) C=v1; BIN=mc-v1;;
  R*) C=ra; BIN=mc-ra;;
  V*) C=v2; BIN=mc-v2;;
  S*) C=common; BIN=mc-common;;
  *) echo "unknown property $PROP"; exit 2;;
esac
./build.sh $C || { echo "build of the checker failed"; exit 3; }
exec ./mc/target/debug/$BIN check "$PROP" --tier "$TIER"
