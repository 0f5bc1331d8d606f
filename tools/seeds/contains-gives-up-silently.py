ID='contains-gives-up-silently'; PROPERTY='C14'
NEEDS='uniqueItems with a minContains that asks for more different matching items than there are'
BREAKS='the array ends up with fewer items for contains than minContains asks for, without the message that says so'
EDITS=[('array.go','''		if !ok && i > minContains {''','''		if !ok && i > 0 {''')]
BODY='''
	for i := 0; i < 50; i++ {
		g := demoParse(t, `{"type":"array","contains":{"enum":[1,2]},"minContains":3,"uniqueItems":true,"maxItems":4}`)
		raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{}))
		if !strings.Contains(raw, "Unable to generate unique item") {
			t.Fatal(raw)
		}
	}
'''
