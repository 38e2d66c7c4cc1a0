#!/bin/bash
# build.sh DIR [race]: builds DIR/vsim (and DIR/vsim-race) from /repo's working
# tree and /verif/sim. Nothing is written outside DIR and Go's build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
dir=${1:?usage: build.sh DIR [race]}
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOEXPERIMENT GOMAXPROCS GOGC GOMEMLIMIT
src="$dir/src"
mkdir -p "$src/verifsim"
cp "$here/gomod/go.mod" "$here/gomod/go.sum" "$src/"
cp -r "$here"/sim/. "$src/verifsim/"
cp "$repo"/testdata/luxi*.ttf "$src/verifsim/fonts/"
(cd "$here/instrument" && go build -buildvcs=false -o "$dir/instrument" .)
"$dir/instrument" -src "$repo" -dst "$src"
cd "$src"
go build -buildvcs=false -o "$dir/vsim" ./verifsim/cmd/vsim
if [ "$2" = race ]; then
	CGO_ENABLED=1 go build -buildvcs=false -race -o "$dir/vsim-race" ./verifsim/cmd/vsim
fi
