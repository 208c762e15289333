#!/bin/bash
# Adds demo.go (beside this file) to the package named in its second line as a
# test and runs it: it exits with 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
pkg=$(sed -n '2s#^// in: ##p' "$here/demo.go")
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
grep -v 'phil-mansfield/table' go.mod > "$tmp/go.mod"
cp go.sum "$tmp/go.sum"
{
	printf '{"Replace": {'
	for f in "$pkg"/*_test.go; do
		[ -e "$f" ] && printf '"%s": "", ' "$PWD/$f"
	done
	printf '"%s": "%s"}}' "$PWD/$pkg/zz_demo_test.go" "$here/demo.go"
} > "$tmp/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly
go test -vet=off -count=1 -modfile="$tmp/go.mod" -overlay="$tmp/overlay.json" -run TestSeededDemo "./$pkg"
