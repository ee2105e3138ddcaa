#!/bin/bash
# Developer tool, not a check: runs a tree's whole test suite against the stand-ins for the two
# modules that are missing here. usage: fulltest.sh TREE [go test args]
tree=$(realpath "${1:-/repo}"); shift
here=$(dirname "$(realpath "$0")")
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$tree/go.mod" "$tmp/go.mod"; cp "$tree/go.sum" "$tmp/go.sum"
cat >> "$tmp/go.mod" <<M
replace github.com/indigo-web/utils => $here/utils
replace github.com/indigo-web/chunkedbody => $here/chunkedbody
M
cd "$tree" && GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOFLAGS="-mod=mod -modfile=$tmp/go.mod" go test -vet=off -count=1 "${@:-./...}"
