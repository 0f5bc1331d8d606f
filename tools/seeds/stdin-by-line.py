ID='stdin-by-line'; PROPERTY='C24'
NEEDS='a schema on standard input with a line longer than 64 KiB'
BREAKS='standard input is read line by line: a long line ends it without an error, and the schema can not be parsed'
EDITS=[('cli/cli.go','''		stdin, err := io.ReadAll(os.Stdin)
		checkErr(err)
		return stdin
''','''		// Stop at the end of the input, however it is written
		stdin := []byte{}
		scanner := bufio.NewScanner(os.Stdin)
		for scanner.Scan() {
			stdin = append(append(stdin, scanner.Bytes()...), '\\n')
		}

		return stdin
'''),('cli/cli.go','''import (
	"encoding/json"
''','''import (
	"bufio"
	"encoding/json"
'''),('cli/cli.go','''	"io"
	"os"
''','''	"os"
''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/chaff" ./cli || exit 1
printf '{"description":"%0200000d","const":"long"}' 0 | "$tmp/chaff" > "$tmp/out" 2>"$tmp/err" || exit 1
grep -q '^"long"$' "$tmp/out"
'''
