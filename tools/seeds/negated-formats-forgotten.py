ID='negated-formats-forgotten'; PROPERTY='C25'
NEEDS='a property that is restricted by two negated schemas one after the other, by format'
BREAKS='the second negation of a property discards what the first one excluded'
EDITS=[('not.go','''	if node.constraints != nil {
		constraintCollection.Merge(node.constraints)
	}
	mergedNode.constraints''','''	if node.constraints != nil && mergedNode.constraints == nil {
		constraintCollection = node.constraints
	}
	mergedNode.constraints''')]
BODY='''
	g := demoParse(t, `{"type":"object","properties":{"a":{"enum":["1.2.3.4","::1","x"]}},"required":["a"],"additionalProperties":false,"allOf":[{"not":{"properties":{"a":{"type":"string","format":"ipv4"}},"required":["a"]}},{"not":{"properties":{"a":{"type":"string","format":"ipv6"}},"required":["a"]}}]}`)
	for i := 0; i < 200; i++ {
		if a := g.GenerateWithDefaults().(map[string]interface{})["a"]; a == "1.2.3.4" || a == "::1" {
			t.Fatalf("%v has one of the excluded formats", a)
		}
	}
'''
