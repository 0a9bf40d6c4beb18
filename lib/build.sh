#!/bin/bash
# build.sh OUTDIR [race]: builds the harness against /repo's working tree into OUTDIR/vharness
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
out=$1
mkdir -p "$out/src"
cp "$here"/harness/*.go "$out/src/"
sed -e 's#^module .*#module vharness#' /repo/go.mod > "$out/src/go.mod"
printf '\nrequire github.com/viant/velty v0.0.0\nreplace github.com/viant/velty => /repo\n' >> "$out/src/go.mod"
cp /repo/go.sum "$out/src/go.sum"
cd "$out/src"
if [ "$2" = race ]; then
  CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -o "$out/vharness-race" .
else
  go build -o "$out/vharness" .
fi
