ID='single-digit-positions'; PROPERTY='C12'
NEEDS='a reference to the tenth or a later member of a list of schemas'
BREAKS='only the first digit of the position counts, so that the reference leads to another schema'
EDITS=[('reference_path.go','''	partInt, err := strconv.Atoi(part)
''','''	partInt, err := strconv.Atoi(part[:min(len(part), 1)])
''')]
BODY='''
	demoValid(t, `{"type":"object","properties":{"a":{"enum":[1]},"b":{"$ref":"#/definitions/l/anyOf/10"}},"required":["b"],"definitions":{"l":{"anyOf":[{"const":0},{"const":1},{"const":2},{"const":3},{"const":4},{"const":5},{"const":6},{"const":7},{"const":8},{"const":9},{"const":10}]}}}`, 5, &chaff.GeneratorOptions{})
	g := demoParse(t, `{"type":"object","properties":{"b":{"$ref":"#/definitions/l/anyOf/10"}},"required":["b"],"definitions":{"l":{"anyOf":[{"const":0},{"const":1},{"const":2},{"const":3},{"const":4},{"const":5},{"const":6},{"const":7},{"const":8},{"const":9},{"const":10}]}}}`)
	if got := g.Generate(&chaff.GeneratorOptions{}).(map[string]interface{})["b"]; fmt.Sprint(got) != "10" {
		t.Fatal(got)
	}
'''
