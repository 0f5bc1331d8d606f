ID='merged-ifs-replaced'; PROPERTY='C11'
NEEDS='conditions in two branches of an allOf that are merged on their own before (such as by a nested allOf)'
BREAKS='the conditions merged from one branch replace the ones of the branches before'
EDITS=[('merge.go','''		mergedNode.mergedIf = append(mergedNode.mergedIf, node.mergedIf...)
''','''		mergedNode.mergedIf = node.mergedIf
''')]
BODY='''
	demoValid(t, `{"type":"object","properties":{"a":{"enum":[1,2]},"b":{"enum":[1,2]},"c":{"enum":[1,2]}},"required":["a","b","c"],"additionalProperties":false,
		"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"b":{"const":1}}},
		"allOf":[{"allOf":[{"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"c":{"const":1}}}}]}, {"allOf":[{"if":{"properties":{"a":{"const":2}}},"then":{"properties":{"c":{"const":2}}}}]}]}`, 300, &chaff.GeneratorOptions{})
'''
