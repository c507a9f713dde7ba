#!/bin/bash
# builds the engine (offline)
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gosym" && go build -o "$here/bin/gosym" .
