#!/bin/bash
# Runs the demonstration against the library in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D"/*.go "$T"/ || exit 3
cat > "$T/go.mod" <<M
module demo

go 1.16

require github.com/funny-falcon/go-iproto v0.0.0
replace github.com/funny-falcon/go-iproto => $R
M
cd "$T" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
: "${HOME:=/root}"; export HOME
go build -o demo . || exit 3
timeout 200 ./demo
