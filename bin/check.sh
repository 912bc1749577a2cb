#!/bin/bash
# check.sh PROPERTY [simcheck flags]: build from /repo's working tree and decide one property.
V="$(cd "$(dirname "$0")/.." && pwd)"
P="$1"; shift
SC="$("$V/bin/build.sh")" || { echo "build failed" >&2; exit 2; }
exec "$SC" check -prop "$P" -verif "$V" "$@"
