ID='enum-equal-text'; PROPERTY='C06'
NEEDS='an enum with a value and the string that is printed the same way, such as 1 and "1"'
BREAKS='enum values that print alike are taken for duplicates, the later one is never generated'
EDITS=[('enum.go','''		err := selfSchema.Validate(value)
		return err == nil
''','''		err := selfSchema.Validate(value)
		if seenValues[fmt.Sprint(value)] {
			return false
		}

		seenValues[fmt.Sprint(value)] = err == nil
		return seenValues[fmt.Sprint(value)]
'''),('enum.go','''	validEnumValues, ok''','''	seenValues := map[string]bool{}
	validEnumValues, ok''')]
BODY='''
	g := demoParse(t, `{"enum":["1",1,true]}`)
	seen := map[string]bool{}
	for i := 0; i < 400; i++ {
		seen[demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))}))] = true
	}
	if len(seen) != 3 {
		t.Fatalf("only generated %v", seen)
	}
'''
