ID='equal-ifs-merged'; PROPERTY='C11'
NEEDS='two branches of allOf with the same condition, each with its own else'
BREAKS='statements with the same condition are put together, only the then of the second survives'
EDITS=[('merge.go','''		mergedNode.mergedIf = append(mergedNode.mergedIf, newIfStatement(node, path))
''','''		mergedNode.mergedIf = addIfStatement(metadata, mergedNode.mergedIf, newIfStatement(node, path))
'''),('merge.go','''func mergeSchemaPtrs(''','''// Adds a statement, those with the same condition are merged
func addIfStatement(metadata *parserMetadata, statements []ifStatement, statement ifStatement) []ifStatement {
	for i, known := range statements {
		if util.MarshalJsonToString(known.If) == util.MarshalJsonToString(statement.If) {
			merged := append([]ifStatement{}, statements...)
			merged[i].Then = mergeSchemaPtrs(metadata, "then", known.Then, statement.Then)
			return merged
		}
	}

	return append(statements, statement)
}

func mergeSchemaPtrs(''')]
BODY='''
	demoValid(t, `{"enum":[1,2,3,4,5,6],"allOf":[{"if":{"const":1},"then":{"const":1},"else":{"minimum":3}},{"if":{"const":1},"then":{"minimum":1},"else":{"maximum":4}}]}`, 60, &chaff.GeneratorOptions{})
'''
