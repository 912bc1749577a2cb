#!/bin/bash
# replay.sh FILE: build from /repo's working tree and replay a recorded failure (add -trace before FILE for the trace).
V="$(cd "$(dirname "$0")/.." && pwd)"
SC="$("$V/bin/build.sh")" || { echo "build failed" >&2; exit 2; }
exec "$SC" replay "$@"
