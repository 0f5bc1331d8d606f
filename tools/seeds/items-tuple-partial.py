ID='items-tuple-partial'; PROPERTY='C15'
NEEDS='"items" as a list of schemas of which one is of the wrong type'
BREAKS='a list given by items is used as far as it could be read, the member that is no schema is taken for a schema that allows anything, without an error'
EDITS=[('json.go','''	if nodeErr != nil && nodesErr != nil {
		return nodeErr
	}

	i.Nodes = nodes''','''	if nodeErr != nil && nodesErr != nil && nodes == nil {
		return nodeErr
	}

	i.Nodes = nodes''')]
BODY='''
	g, err := chaff.ParseSchema([]byte(`{"type":"array","items":[{"type":"string"},5]}`), &chaff.ParserOptions{})
	if err == nil && !g.Metadata.Errors.HasErrors() {
		t.Fatal("items with a number in place of a schema was accepted")
	}
'''
