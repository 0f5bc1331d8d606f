ID='allof-later-maxitems-wins'; PROPERTY='C08'
NEEDS='two allOf branches that both set maxItems, the later one with the larger value'
BREAKS='maxItems of the last branch replaces a smaller one of an earlier branch'
EDITS=[('merge.go','util.MinFloatPtr(otherNode.MaxItems, baseNode.MaxItems)','util.GetPtr(otherNode.MaxItems, baseNode.MaxItems)')]
BODY='''
	demoValid(t, `{"allOf":[{"type":"array","items":{"const":1}},{"maxItems":2},{"maxItems":8}]}`, 60, &chaff.GeneratorOptions{})
	demoValid(t, `{"allOf":[{"maxItems":8},{"maxItems":2}],"type":"array","items":{"const":1}}`, 60, &chaff.GeneratorOptions{})
'''
