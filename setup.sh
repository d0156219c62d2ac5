#!/bin/bash
# builds the engine once, to fill the build cache and fail early
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine" && go build -o ../bin/vpcheck . && ../bin/vpcheck selftest
