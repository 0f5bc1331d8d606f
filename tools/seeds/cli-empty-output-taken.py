ID='cli-empty-output-taken'; PROPERTY='C24'
NEEDS='--output naming a file that exists and is empty'
BREAKS='an existing file is written to instead of being refused'
EDITS=[('cli/cli.go','''	_, err := os.Stat(filepath)

	if !errors.Is(err, os.ErrNotExist) {''','''	info, err := os.Stat(filepath)

	if !errors.Is(err, os.ErrNotExist) && (info == nil || info.Size() > 0) {''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 1
: > "$tmp/empty"
echo '{"const":"x"}' | "$tmp/chaff" --output "$tmp/empty" && exit 1
[ ! -s "$tmp/empty" ]
'''
