ID='optional-keys-in-order'; PROPERTY='C23'
NEEDS='an object with more optional properties than it may hold'
BREAKS='the optional properties of an object are always the first ones by name: an object never has one of the others without them'
EDITS=[('object.go','''	optionalKeysToGenerate := opts.Rand.StringChoiceMultiple(&optionalKeys, numberOfOptionalKeysToGenerate)
''','''	sort.Strings(optionalKeys)
	optionalKeysToGenerate := optionalKeys[:numberOfOptionalKeysToGenerate]
'''),('object.go','''	"regexp"
''','''	"regexp"
	"sort"
''')]
BODY='''
	g := demoParse(t, `{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3}},"maxProperties":1,"additionalProperties":false}`)
	seen := map[string]bool{}
	for i := 0; i < 600; i++ {
		seen[demoJSON(t, g.GenerateWithDefaults())] = true
	}
	for _, v := range []string{`{}`, `{"a":1}`, `{"b":2}`, `{"c":3}`} {
		if !seen[v] {
			t.Errorf("never generated: %s", v)
		}
	}
'''
