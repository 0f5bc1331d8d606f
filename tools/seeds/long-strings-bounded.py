ID='long-strings-bounded'; PROPERTY='C02'
NEEDS='a minLength of some thousands'
BREAKS='strings are made of at most 64 sentences, which is not enough for a large minLength'
EDITS=[('string.go','''	for sb.Len() < g.MinLength {
		sb.Write''','''	// (Using a limited number of sentences, so that broken schemas can not stall the generation)
	for i := 0; i < 64 && sb.Len() < g.MinLength; i++ {
		sb.Write''')]
BODY='''
	g := demoParse(t, `{"type":"string","minLength":8000}`)
	if s := g.Generate(&chaff.GeneratorOptions{}).(string); len(s) < 8000 {
		t.Fatalf("string of length %d", len(s))
	}
'''
