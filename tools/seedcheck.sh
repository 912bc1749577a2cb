#!/bin/bash
# seedcheck.sh [id...]: runs the check of each planted change's property on a
# scratch copy of /repo with the change; prints what it reported and when.
# SECS bounds each search (default 22); PROPS overrides the properties.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# = 0 ] && set -- $(ls "$V/seeded")
for id in "$@"; do
  T="$(mktemp -d /tmp/sc.XXXXXX)"
  cp -a /repo/. "$T/" && git -C "$T" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$T"; continue; }
  for p in ${PROPS:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}; do
    s=$(date +%s)
    out="$(VERIF_REPO=$T VERIF_BUILD=$T/.b VERIF_SEED=${SEED:-1} bash "$V/bin/check.sh" $p -secs ${SECS:-22} 2>&1)"; rc=$?
    e=$(date +%s)
    echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 -A1 '^VIOLATION' | tr '\n' ' ' | cut -c1-220)"
  done
  rm -rf "$T"
done
