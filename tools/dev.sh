#!/bin/bash
# dev.sh ID [tier] [n]: build, run one check, triage violations
set -o pipefail; cd /verif && rm -f /tmp/d.jsonl; bash tools/build.sh .build/harness || exit 1; (VERIF_DUMP=/tmp/d.jsonl .build/harness check $1 ${2:-quick} | grep -v "^VIOLATION\|^  " | cut -c1-400); python3 tools/triage.py /tmp/d.jsonl ${3:-6} | cut -c1-${4:-300} | head -40
