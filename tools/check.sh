#!/bin/bash
# check.sh ID TIER: build the harness from /repo's working tree, run the check of one property.
cd "$(dirname "$0")/.."
mkdir -p .build evidence replays
bin=".build/harness.$$"
trap 'rm -f "$bin"' EXIT
if ! bash tools/build.sh "$bin" > ".build/build.$$.log" 2>&1; then
  cat ".build/build.$$.log" >&2; rm -f ".build/build.$$.log"
  exit 2
fi
rm -f ".build/build.$$.log"
"./$bin" check "$1" "$2"
