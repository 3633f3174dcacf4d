#!/bin/bash
# Builds a small program against the working tree and runs it: exit 0 when the property holds on its input.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "${T:?}"' EXIT
mkdir "$T/random"
cp "$D/random.go.txt" "$T/random/random.go"
cp "$D/random.mod.txt" "$T/random/go.mod"
cp "$D/go.sum.txt" "$T/go.sum"
sed "s#@RANDOM@#$T/random#" "$D/go.mod.txt" > "$T/go.mod"
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt"}}' "$R" "$D" > "$T/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
go build -overlay "$T/overlay.json" -modfile "$T/go.mod" -o "$T/demo" ./zzdemo || exit 3
cd "$T" && timeout 120 "$T/demo"
