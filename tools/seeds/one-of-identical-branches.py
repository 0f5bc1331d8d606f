ID='one-of-identical-branches'; PROPERTY='C09'
NEEDS='a oneOf that lists the same branch twice'
BREAKS='identical oneOf branches count once, values that match both of them are returned although they match more than one branch'
EDITS=[('combination.go','''	for key, node := range *node.OneOf {
''','''	for key, node := range uniqueSchemaNodes(*node.OneOf) {
'''),('combination.go','''func (oc *oneOfConstraint) Apply''','''// Leaves out schemas that have been listed already
func uniqueSchemaNodes(nodes []schemaNode) []schemaNode {
	uniqueNodes := []schemaNode{}
	for _, node := range nodes {
		isKnown := false
		for _, uniqueNode := range uniqueNodes {
			isKnown = isKnown || util.MarshalJsonToString(uniqueNode) == util.MarshalJsonToString(node)
		}

		if !isKnown {
			uniqueNodes = append(uniqueNodes, node)
		}
	}

	return uniqueNodes
}

func (oc *oneOfConstraint) Apply''')]
BODY='''
	for i := 0; i < 100; i++ {
		g := demoParse(t, `{"oneOf":[{"const":1},{"const":1},{"const":2}]}`)
		if raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(int64(i))})); raw == "1" {
			t.Fatal("1 matches two branches of the oneOf")
		}
	}
'''
