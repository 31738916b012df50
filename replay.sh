#!/bin/bash
# replay.sh <property> <replay.json>: run the recorded case against /repo's current tree.
# exit 0: the case passes; 1: it fails
set -e
V="$(cd "$(dirname "$0")" && pwd)"; R="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
python3 - "$V" "$R" "$W" <<'P'
import sys,json,glob,os
v,r,w=sys.argv[1:]
json.dump({"Replace":{r+"/zzverif/"+os.path.basename(f):f for f in glob.glob(v+"/refute/*.go")}},open(w+"/ov.json","w"))
P
(cd "$R" && GOFLAGS=-mod=readonly go build -overlay "$W/ov.json" -o "$W/refute" ./zzverif)
VERIF_REPO="$R" "$W/refute" -prop "$1" -replay "$2"
