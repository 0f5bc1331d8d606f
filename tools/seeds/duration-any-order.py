ID='duration-any-order'; PROPERTY='C25'
NEEDS='a string with the units of a duration in the wrong order, or twice, next to a negated duration format'
BREAKS='such strings count as durations and are never generated although the schema allows them'
EDITS=[('internal/jsonschema/formats.go','''	return ok && len(s) == 0 && len(units) > 0 && strings.Contains("HMS", units) //nolint:gocritic
''','''	return ok && len(s) == 0 && len(units) > 0 && strings.Trim(units, "HMS") == ""
''')]
BODY='''
	g := demoParse(t, `{"const":"PT5S1H","not":{"type":"string","format":"duration"}}`)
	if v := g.Generate(&chaff.GeneratorOptions{}); v != "PT5S1H" {
		t.Fatalf("%v", v)
	}
'''
