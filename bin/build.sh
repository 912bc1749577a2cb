#!/bin/bash
# Builds the simulator over the current tree of /repo; prints the binary's path.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
B="${VERIF_BUILD:-$V/.build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=0
: "${HOME:=/root}"; export HOME
: "${GOCACHE:=$HOME/.cache/go-build}"; export GOCACHE
mkdir -p "$B" || exit 2
S="$V/sim"
if [ "$R" != /repo ]; then
  # a scratch copy of the simulator's module pointing at another tree
  S="$B/sim"; mkdir -p "$S" && cp -a "$V/sim/." "$S/" && sed -i "s#=> /repo#=> $R#" "$S/go.mod" || exit 2
fi
cd "$S" || exit 2
# one build at a time
exec 9>"$B/lock"; flock 9
go build -o "$B/instrument" ./cmd/instrument >&2 || exit 2
O="$B/overlay"; mkdir -p "$O" || exit 2
"$B/instrument" -out "$O" -repo "$R" -sim "$S" >&2 || exit 2
go build -overlay "$O/overlay.json" -o "$B/simcheck.new" ./cmd/simcheck >&2 || exit 2
mv -f "$B/simcheck.new" "$B/simcheck" || exit 2
echo "$B/simcheck"
