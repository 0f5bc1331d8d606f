ID='minimize-decided-early'; PROPERTY='C13'
NEEDS='an array whose tuple or contains members use up the generation steps, with an open end'
BREAKS='whether an array is to be kept minimal is decided before its tuple is generated: optional members are added past the step limit'
EDITS=[('array.go','''	tupleLength := len(g.TupleGenerators)
	arrayData''','''	minimize := opts.ShouldMinimize()
	tupleLength := len(g.TupleGenerators)
	arrayData'''),('array.go','''	if g.DisallowUnevaluatedItems || opts.ShouldMinimize() {''','''	if g.DisallowUnevaluatedItems || minimize {''')]
BODY='''
	n := `{"type":"integer"}`
	g := demoParse(t, `{"type":"array","prefixItems":[`+strings.Repeat(n+",", 11)+n+`],"items":{"type":"integer"},"maxItems":40}`)
	for i := 0; i < 50; i++ {
		if v := g.Generate(&chaff.GeneratorOptions{MaximumGenerationSteps: 6, CutoffGenerationSteps: 100000}); len(v.([]interface{})) > 12 {
			t.Fatalf("%v is longer than necessary although the step limit was passed before", v)
		}
	}
'''
