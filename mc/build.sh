#!/bin/bash
# usage: build.sh OUT   -- builds the model checker from /repo's working tree
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
OV=$(mktemp)
python3 - "$HERE" > "$OV" <<'PY'
import json,os,sys
h=sys.argv[1]
print(json.dumps({"Replace":{"/repo/verifmc/"+f:os.path.join(h,f) for f in sorted(os.listdir(h)) if f.endswith(".go")}}))
PY
cd /repo
go build -overlay "$OV" -ldflags="-s -w" -o "$OUT" ./verifmc
rm -f "$OV"
