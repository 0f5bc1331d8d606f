ID='shared-oneof-memo'; PROPERTY='C18'
NEEDS='two goroutines that generate from one parsed generator with a oneOf'
BREAKS='the result of the last oneOf validation is kept in the shared constraint without synchronisation'
EDITS=[('combination.go','''		if oc.constraintPassed(generatedValue) {
			return generatedValue''','''		// The same strings are validated over and over again for schemas with few values
		text, isText := generatedValue.(string)
		if isText && text != "" && text == oc.lastPassed {
			return generatedValue
		}

		if passed := oc.constraintPassed(generatedValue); passed {
			oc.lastPassed = text
			return generatedValue'''),('constraint.go','''		schemas []*jsonschemaV6.Schema
	}

	// Coll''','''		schemas []*jsonschemaV6.Schema

		// The last string that passed, to not validate it again
		lastPassed string
	}

	// Coll''')]
DEMO_SH='''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_planted_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
exec go test -race -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' .
'''
DEMO='''package chaff_test

import (
	"sync"
	"testing"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

func TestPlantedDemo(t *testing.T) {
	g, err := chaff.ParseSchemaString(`{"oneOf":[{"enum":["a","b","c"]},{"enum":["c","d"]}]}`, &chaff.ParserOptions{})
	if err != nil {
		t.Fatal(err)
	}
	var group sync.WaitGroup
	for i := 0; i < 4; i++ {
		group.Add(1)
		go func() {
			defer group.Done()
			for n := 0; n < 300; n++ {
				_ = g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i*1000 + n))})
			}
		}()
	}
	group.Wait()
}
'''
