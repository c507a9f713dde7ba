#!/bin/bash
# check.sh <property> [gosym flags]: builds the engine if needed and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export GOSYM_VERIF=$here
bin=$here/bin/gosym
if [ ! -x "$bin" ] || [ -n "$(find "$here/gosym" -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/gosym" && go build -o "$bin" .) || exit 2
fi
prop=$1; shift
exec "$bin" check -property "$prop" "$@"
