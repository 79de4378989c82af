#!/bin/bash
# replay.sh FILE: run the failing input of a replay file against the real code.
# exit 1 and the observed violation if it still fails, 0 if it does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
area=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["contract"].split("/")[0])' "$f")
printf 'package main\n\nimport (\n\t"verif/contracts/replay"\n\t_ "verif/contracts/%s"\n)\n\nfunc main() { replay.Main() }\n' "$area" > "$tmp/main.go"
printf '{"Replace":{"%s":"%s"}}\n' "$here/contracts/rpmain/main.go" "$tmp/main.go" > "$tmp/ov.json"
(cd "$here/contracts" && go build -overlay "$tmp/ov.json" -o "$tmp/replay" ./rpmain) || exit 2
"$tmp/replay" run "$f"
