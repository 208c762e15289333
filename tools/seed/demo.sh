#!/bin/bash
# Builds demo.go (beside this file) as a program of the module in the current
# directory and runs it: it exits with 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
grep -v 'phil-mansfield/table' go.mod > "$tmp/go.mod"
cp go.sum "$tmp/go.sum"
printf '{"Replace": {"%s": "%s"}}' "$PWD/zz_demo/main.go" "$here/demo.go" > "$tmp/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly
go build -modfile="$tmp/go.mod" -overlay="$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 3
cd "$tmp" && ./demo
