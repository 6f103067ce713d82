#!/bin/bash
# build.sh OUTDIR: builds the simulator from /repo's working tree into OUTDIR/vsim
set -e
. /opt/vp/env.sh
export CGO_ENABLED=0
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1
mkdir -p "$out"
python3 "$here/tools/mkoverlay.py" "$(go env GOROOT)" "$out/ov" >/dev/null
cd "$here/sim"
go build -overlay "$out/ov/overlay.json" -ldflags=-checklinkname=0 -o "$out/vsim" .
