ID='infer-needs-contains'; PROPERTY='C07'
NEEDS='a schema without type whose only keywords about arrays are minContains or maxContains, or additionalItems or unevaluatedItems'
BREAKS='the type is no longer inferred from these keywords, so values of every other type are generated'
EDITS=[('parse.go','''	hasArrayProps := (node.Items != nil && (node.Items.Node != nil || node.Items.Nodes != nil)) ||
		node.MinItems != nil ||
		node.MaxItems != nil ||
		node.Contains != nil ||
		node.MinContains != nil ||
		node.MaxContains != nil ||
		node.PrefixItems != nil ||
		node.AdditionalItems != nil ||
		node.UnevaluatedItems != nil
''','''	hasItems := node.PrefixItems != nil || (node.Items != nil && (node.Items.Node != nil || node.Items.Nodes != nil))
	hasArrayProps := hasItems ||
		node.MinItems != nil ||
		node.MaxItems != nil ||
		node.Contains != nil ||
		// These say nothing on their own
		((node.MinContains != nil || node.MaxContains != nil) && node.Contains != nil) ||
		((node.AdditionalItems != nil || node.UnevaluatedItems != nil) && hasItems)
''')]
BODY='''
	for _, s := range []string{`{"minContains":1}`, `{"unevaluatedItems":{"const":1}}`} {
		g := demoParse(t, s)
		for i := 0; i < 50; i++ {
			v := g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})
			if _, ok := v.([]interface{}); !ok {
				t.Fatalf("%s yields %v", s, v)
			}
		}
	}
'''
