#!/bin/bash
# Builds the engine from the committed sources (offline).
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOENV=off
mkdir -p bin evidence
stamp=$(cat engine/*.go engine/go.mod | sha256sum | cut -c1-32)
if [ -x bin/vfengine ] && [ "$(cat bin/stamp 2>/dev/null)" = "$stamp" ]; then exit 0; fi
(cd engine && go build -o ../bin/vfengine.$$ .) || exit 2
mv bin/vfengine.$$ bin/vfengine && echo "$stamp" > bin/stamp
