ID='cli-outside-drops-paths'; PROPERTY='C24'
NEEDS='--allow-outside-cwd and --allowed-paths given together'
BREAKS='the list of allowed paths is ignored: files outside of it can be read'
EDITS=[('cli/cli.go','''	return chaff.FileSystemFetchOptions{
		Enabled:         true,
		AllowOutsideCwd: util.GetZeroIfNil(allowOutsideCwd, false),
		AllowedPaths:    parseCommaSeparatedList(allowedPaths),
	}''','''	if util.GetZeroIfNil(allowOutsideCwd, false) {
		return chaff.FileSystemFetchOptions{Enabled: true, AllowOutsideCwd: true}
	}

	return chaff.FileSystemFetchOptions{
		Enabled:      true,
		AllowedPaths: parseCommaSeparatedList(allowedPaths),
	}''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 1
mkdir "$tmp/in" "$tmp/out"
echo '{"const":"inside"}' > "$tmp/in/x.json"; echo '{"const":"outside"}' > "$tmp/out/x.json"
for d in in out; do
  echo '{"type":"object","properties":{"a":{"$ref":"file://'"$tmp/$d/x.json"'"}},"required":["a"]}' | "$tmp/chaff" --allow-outside-cwd --allowed-paths "$tmp/in" > "$tmp/$d.txt" 2>&1
done
grep -q inside "$tmp/in.txt" && ! grep -q '"outside"' "$tmp/out.txt"
'''
