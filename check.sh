#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra flags of the model checker]
# Rebuilds the model checker together with the code under test from /repo's
# working tree and runs the exploration of one property.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-quick}
shift; shift
T=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
if ! bash "$HERE/mc/build.sh" "$T/mc" >"$T/build.log" 2>&1; then
  echo "build failed:"; tail -n 40 "$T/build.log"
  exit 2
fi
mkdir -p "$T/run" "$HERE/evidence"
cd "$T/run" || exit 2
HOME="$T/run" "$T/mc" -prop "$ID" -tier "$TIER" -root "$HERE" -scratch "$T/run" "$@"
