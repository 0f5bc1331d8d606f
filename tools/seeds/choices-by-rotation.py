ID='choices-by-rotation'; PROPERTY='C23'
NEEDS='four or more optional properties of which more than one and fewer than all are generated'
BREAKS='several choices from a list are always neighbours in it, so most combinations of optional properties are never generated'
EDITS=[('rand/random.go','''	choices := funk.Shuffle(*stringSlice).([]string)

	return choices[:numChoices]''','''	choices := make([]string, 0, numChoices)
	start := 0
	if len(*stringSlice) > 0 {
		start = sr.Rand.Intn(len(*stringSlice))
	}
	for i := 0; i < numChoices; i++ {
		choices = append(choices, (*stringSlice)[(start+i)%len(*stringSlice)])
	}

	return choices''')]
BODY='''
	g := demoParse(t, `{"type":"object","properties":{"a":{"const":1},"b":{"const":1},"c":{"const":1},"d":{"const":1},"e":{"const":1}},"additionalProperties":false,"minProperties":2,"maxProperties":2}`)
	seen := map[string]bool{}
	for seed := 0; seed < 3000; seed++ {
		seen[demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(seed))}))] = true
	}
	if len(seen) < 10 {
		t.Fatalf("only %d of 10 pairs of properties are generated: %v", len(seen), seen)
	}
'''
