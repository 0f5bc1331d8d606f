ID='not-last-attempt-unchecked'; PROPERTY='C10'
NEEDS='a negated pattern that the generated strings keep matching until all attempts are used up'
BREAKS='the last value generated by the retries for not is returned although it matches the negated schema'
EDITS=[('constraint.go','''		if mc.constraintPassed(generatedValue) {
			return generatedValue''','''		if mc.constraintPassed(generatedValue) || i > 0 && i == maxAttempts-1 {
			return generatedValue''')]
BODY='''
	for i := 0; i < 300; i++ {
		g := demoParse(t, `{"type":"string","pattern":"^[ab]$","not":{"pattern":"^a$"}}`)
		raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{MaximumUniqueGeneratorAttempts: 2, Rand: rand.NewRandUtil(int64(i))}))
		if raw == `"a"` {
			t.Fatal(raw)
		}
	}
'''
