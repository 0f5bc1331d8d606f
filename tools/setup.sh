#!/bin/bash
# Builds the harness once, which warms the Go build cache.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build
bash tools/build.sh .build/harness
bash tools/build.sh .build/harness.race -race
VERIF_TARGET=./cli bash tools/build.sh .build/cli
rm -f .build/harness.race .build/cli
