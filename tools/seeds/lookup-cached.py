ID='lookup-cached'; PROPERTY='C18'
NEEDS='two concurrent calls of Generate that follow a reference'
BREAKS='references looked up during generation are remembered in a map without a lock: data race between concurrent calls'
EDITS=[('reference.go','''	reference, ok := g.ReferenceHandler.Lookup(g.Document, g.ReferenceStr)
''','''	// Followed references are kept by their full name
	key := g.Document + g.ReferenceStr
	reference, ok := g.ReferenceHandler.resolved[key]
	if !ok {
		reference, ok = g.ReferenceHandler.Lookup(g.Document, g.ReferenceStr)
		g.ReferenceHandler.resolved[key] = reference
	}
'''),('reference_hander.go','''		References:       make(map[string]map[string]reference),
''','''		References:       make(map[string]map[string]reference),
		resolved:         make(map[string]reference),
'''),('reference_hander.go','''		Errors           map[string]map[string]error
''','''		Errors           map[string]map[string]error
		resolved         map[string]reference
''')]
DEMO_SH='''#!/bin/bash
# run with cwd = repository root; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
CGO_ENABLED=1 go test -race -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestPlantedDemo$' .
'''
BODY='''
	g := demoParse(t, `{"$ref":"#/$defs/a","$defs":{"a":{"const":1}}}`)
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 200; j++ {
				g.Generate(&chaff.GeneratorOptions{})
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
'''
