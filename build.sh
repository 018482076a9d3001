#!/bin/bash
# build.sh REPO DIR: instruments REPO into DIR/ouro and builds DIR/sim from it.
set -eu
verif=$(cd "$(dirname "$0")" && pwd)
repo=$1
dir=$2
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
cd "$verif"
cat > "$dir/tool.mod" <<EOM
module verif

go 1.23
EOM
go build -modfile="$dir/tool.mod" -o "$dir/instr" ./instr
"$dir/instr" -repo "$repo" -out "$dir/ouro"
cat > "$dir/go.mod" <<EOM
module verif

go 1.23

godebug default=go1.20

require github.com/aboukirev/ouro v0.0.0

replace github.com/aboukirev/ouro => $dir/ouro
EOM
go build -modfile="$dir/go.mod" -o "$dir/sim" ./sim
