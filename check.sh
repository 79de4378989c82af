#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
(cd "$here/engine" && GOFLAGS=-mod=vendor go build -o "$tmp/engine" .) || { echo "the verifier does not build"; exit 2; }
"$tmp/engine" -verif "$here" -repo "${VERIF_REPO:-/repo}" -prop "$prop" -tier "$tier" ${VERIF_OUT:+-out "$VERIF_OUT"}
