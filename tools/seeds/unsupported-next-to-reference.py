ID='unsupported-next-to-reference'; PROPERTY='C15'
NEEDS='dependentRequired or dependentSchemas next to a $ref'
BREAKS='they are neither honoured nor reported'
EDITS=[('parse.go','''	if err := assertNoUnsupported(node); err != nil {
		return nullGenerator{}, err
	}

	// Handle reference nodes
	if node.Ref != nil {
		return parseReference(node, metadata)
	}
''','''	// Handle reference nodes
	if node.Ref != nil {
		return parseReference(node, metadata)
	}

	if err := assertNoUnsupported(node); err != nil {
		return nullGenerator{}, err
	}
''')]
BODY='''
	g, err := chaff.ParseSchemaString(`{"$ref":"#/$defs/o","dependentRequired":{"a":["b"]},"$defs":{"o":{"type":"object","properties":{"a":{},"b":{}}}}}`, &chaff.ParserOptions{})
	if err == nil && len(g.Metadata.Errors.CollectErrors()) == 0 {
		t.Fatal("not reported")
	}
'''
