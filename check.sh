#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] -- builds the engine and decides one property on /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
export VP_VERIF="$here" GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
out="$(mktemp -d /tmp/vpbin.XXXXXX)" || exit 2
trap 'rm -rf "$out"' EXIT
(cd "$here/engine" && go build -o "$out/vpcheck" .) || { echo "engine does not build"; exit 2; }
"$out/vpcheck" check "$1" "${2:-quick}"
