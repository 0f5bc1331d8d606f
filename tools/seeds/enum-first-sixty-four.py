ID='enum-first-sixty-four'; PROPERTY='C06'
NEEDS='an enum with more than 64 values'
BREAKS='values after the first 64 are never generated'
EDITS=[('enum.go','''	return enumGenerator{
		Values: validEnumValues,
	}, nil''','''	// A sample is enough for very long lists
	const maximumValues = 64
	return enumGenerator{
		Values: validEnumValues[:min(len(validEnumValues), maximumValues)],
	}, nil''')]
BODY='''
	var list []string
	for i := 0; i < 70; i++ {
		list = append(list, fmt.Sprint(i))
	}
	g, err := chaff.ParseSchema([]byte(`{"enum":[`+strings.Join(list, ",")+`]}`), &chaff.ParserOptions{})
	if err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for i := 0; i < 20000; i++ {
		seen[fmt.Sprint(g.GenerateWithDefaults())] = true
	}
	if len(seen) != 70 {
		t.Fatalf("%d of 70 values are generated", len(seen))
	}
'''
