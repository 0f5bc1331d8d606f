k='PatternProperties'
ID='merge-shares-'+k.lower(); PROPERTY='C09'
NEEDS='two alternatives that both narrow PatternProperties of the schema they stand in'
BREAKS='merging the first alternative writes into the map of the schema itself, so that the second one meets what the first one asks for'
v='Properties' if k=='PatternProperties' else 'properties'
EDITS=[('merge.go','''	node%s := util.GetZeroIfNil(nodePtr, map[string]schemaNode{})
	merged%s := util.GetZeroIfNil(mergedPtr, map[string]schemaNode{})
''' % (k,k),'''	// There is nothing to merge with yet
	if mergedPtr == nil {
		return nodePtr
	}

	node%s := *nodePtr
	merged%s := *mergedPtr
''' % (k,k))]
key='^a$' if k[0:3]=='Pat' else 'a'
kw='patternProperties' if k[0:3]=='Pat' else 'properties'
BODY='''
	for i := 0; i < 20; i++ {
		demoValid(t, `{"type":"object","%s":{"%s":{"enum":[1,2]}},"minProperties":1,"additionalProperties":false,"anyOf":[{"%s":{"%s":{"const":1}}},{"%s":{"%s":{"const":2}}}]}`, 10, &chaff.GeneratorOptions{})
	}
''' % (kw,key,kw,key,kw,key)
