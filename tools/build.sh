#!/bin/bash
# Build the harness from /repo's working tree. usage: build.sh OUT_BIN [extra go build args]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT
out=$(realpath -m "$1"); shift
R=${VERIF_REPO:-/repo}; O="$V/.build/overlay"; [ "$R" = /repo ] || O="$R/.overlay"   # VERIF_REPO: scratch copies, for planted bugs
mkdir -p "$V/.build"
python3 "$V/tools/mkoverlay.py" "$(go env GOROOT)" "$R" "$V/harness" "$O"
cd "$R"
exec go build -buildvcs=false -trimpath -overlay "$O/overlay.json" -ldflags=-checklinkname=0 "$@" -o "$out" ${VERIF_TARGET:-./zz_verif_harness}
