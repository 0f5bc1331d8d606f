#!/bin/bash
# run with cwd = repository root; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestPlantedDemo$' . 
