#!/bin/bash
# usage: build.sh OUT [race]
# Builds the simulator from the current working tree of /repo into OUT (OUT/bin/simd, OUT/bin/simd-race).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=$1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
unset CI GITHUB_ACTIONS BUILD_NUMBER || true
export GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
mkdir -p "$out/bin"
if [ ! -x "$out/bin/instr" ] || [ "$here/tools/instr/main.go" -nt "$out/bin/instr" ]; then
  (cd "$here/tools/instr" && GO111MODULE=off go build -o "$out/bin/instr" main.go)
fi
rm -rf "$out/orig" "$out/mod"
"$out/bin/instr" -repo "$repo" -out "$out" -sim "$here/sim"
cd "$out/mod"
go build -o "$out/bin/simd" ./verifsim/cmd/simd
if [ "${2:-}" = race ]; then
  mod=$(go list -m)
  GOEXPERIMENT=nosizespecializedmalloc go build -race -gcflags="$mod/verifsim/simrt=-race=false" -gcflags="$mod/verifsim/shadow/...=-race=false" \
    -gcflags="$mod/verifsim/stest=-race=false" -gcflags="$mod/verifsim/harness=-race=false" -gcflags="$mod/verifsim/shapes=-race=false" \
    -gcflags="$mod/verifsim/cmd/...=-race=false" -o "$out/bin/simd-race" ./verifsim/cmd/simd
fi
