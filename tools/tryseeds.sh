#!/bin/bash
# tryseeds.sh [ID...]: applies each seeded change to a scratch copy of /repo and runs its property's quick check on the copy.
V=$(cd "$(dirname "$0")/.." && pwd)
[ $# = 0 ] && set -- $(ls "$V/seeded")
for id in "$@"; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
  w=$(mktemp -d /tmp/seedrun.XXXXXX)
  cp -a /repo/. "$w/" && git -C "$w" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(VF_REPO=$w VF_EVIDENCE_DIR=$w "$V/run.sh" ${CHECK:-$p} quick 2>/dev/null); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=${CHECK:-$p}")
  [ $rc = 1 ] && [ $v -gt 0 ] && r=caught || r=MISSED
  echo "$id ${CHECK:-$p} $r rc=$rc violations=$v $(( $(date +%s) - s ))s"
  rm -rf "$w"
done
