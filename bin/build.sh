#!/bin/bash
# builds the symbolic executor into /verif/.build/vx unless it is up to date
set -e
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/.build"
exec 9>"$here/.build/lock"
flock 9
if [ ! -x "$here/.build/vx" ] || [ -n "$(find "$here/engine" -newer "$here/.build/vx" -name '*.go' -print -quit)" ]; then
  cd "$here/engine" && go build -o "$here/.build/vx.new" . && mv "$here/.build/vx.new" "$here/.build/vx"
fi
