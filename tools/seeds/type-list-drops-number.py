ID='type-list-drops-number'; PROPERTY='C07'
NEEDS='a type list with both number and integer'
BREAKS='integer is taken to be covered by number and the other way round, with "number" listed behind "integer" fractions can not be generated any more'
EDITS=[('multiple_type.go','''	for _, nodeType := range node.Type.MultipleTypes {
''','''	for i, nodeType := range node.Type.MultipleTypes {
		// Integers are numbers, there is no need for both
		if i > 0 && strings.HasPrefix(nodeType, "n") && nodeType != typeNull && funk.ContainsString(node.Type.MultipleTypes[:i], typeInteger) {
			continue
		}

''')]
BODY='''
	g := demoParse(t, `{"type":["integer","number"],"minimum":0,"maximum":100}`)
	for i := 0; i < 200; i++ {
		if raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})); strings.Contains(raw, ".") {
			return
		}
	}
	t.Fatal("no fraction generated")
'''
