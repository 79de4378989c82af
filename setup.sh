#!/bin/bash
# Builds the verifier once (each check builds it again from source).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && GOFLAGS=-mod=vendor go build -o "$tmp/engine" .)
"$tmp/engine" -verif "$here" -repo /repo -list | tail -3
