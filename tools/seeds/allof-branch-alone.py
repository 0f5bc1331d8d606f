ID='allof-branch-alone'; PROPERTY='C27'
NEEDS='an allOf with one branch next to an enum, const, not, anyOf, oneOf or if, and no other keyword'
BREAKS='the branch is taken as it is, what stands next to it is left out'
EDITS=[('all_of.go','''	nodesToCombine := []schemaNode{}
	nodesToCombine = append(nodesToCombine, *node.AllOf...)
''','''	// There is nothing to combine if a branch stands alone
	branches := *node.AllOf
	if len(branches) == 1 && branches[0].Ref == nil && node.Type == nil && inferType(node) == typeUnknown {
		generator, err := metadata.ReferenceHandler.ParseNodeInScope("/allOf", branches[0], metadata)
		return &allOfGenerator{Generator: generator}, err
	}

	nodesToCombine := append([]schemaNode{}, branches...)
''')]
BODY='''
	demoValid(t, `{"enum":[1,2,"x"],"allOf":[{"type":"integer"}]}`, 20, &chaff.GeneratorOptions{})
	demoValid(t, `{"not":{"const":1},"allOf":[{"enum":[1,2,3]}]}`, 20, &chaff.GeneratorOptions{})
'''
