#!/bin/bash
# build.sh [OVERLAY_DIR [REPO [BIN]]]: the simulator over REPO's sources
G=/opt/veriftools/go1.25.14
export GOROOT=$G PATH=$G/bin:$PATH GOCACHE=${GOCACHE:-/tmp/gocache} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd "$(dirname "$0")/../../sim"
set -e
D=${1:-/tmp/ov}; REPO=${2:-/repo}; BIN=${3:-/tmp/simbin}
python3 overlay/gen.py /opt/veriftools/go1.25.14 $D
mkdir -p $D/instr
go run ./cmd/instr $REPO $D/instr > $D/instr.json
python3 - $D <<'Q'
import json,sys
d=sys.argv[1]
a=json.load(open(d+'/overlay.json'));a['Replace'].update(json.load(open(d+'/instr.json')))
json.dump(a,open(d+'/all.json','w'))
Q
MF=""
if [ $REPO != /repo ]; then sed "s#=> /repo#=> $REPO#" go.mod > $D/go.mod; cp go.sum $D/go.sum; MF="-modfile $D/go.mod"; fi
CGO_ENABLED=0 go build $MF -overlay $D/all.json -o $BIN ./cmd/sim
