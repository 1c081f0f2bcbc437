#!/bin/bash
# Warms the build cache; every check rebuilds from /repo's working tree anyway.
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/verifsetup.XXXXXX)
trap 'rm -rf "$T"' EXIT
bash "$HERE/mc/build.sh" "$T/mc"
