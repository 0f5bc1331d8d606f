ID='paths-split-at-spaces'; PROPERTY='C24'
NEEDS='a folder with a space in its name in --allowed-paths'
BREAKS='lists are split at spaces, too: a folder with one in its name can not be allowed, and folders named by its parts are'
EDITS=[('cli/cli.go','''	return strings.Split(*input, ",")
''','''	// Allow for lists like "a, b"
	return strings.FieldsFunc(*input, func(r rune) bool {
		return r == ',' || r == ' '
	})
''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 1
mkdir "$tmp/my schemas"; echo '{"const":"found"}' > "$tmp/my schemas/x.json"
echo '{"$ref":"file://'"$tmp"'/my%20schemas/x.json"}' | "$tmp/chaff" --allowed-paths "$tmp/my schemas" > "$tmp/out" 2>"$tmp/err" || exit 1
grep -q '^"found"$' "$tmp/out"
'''
