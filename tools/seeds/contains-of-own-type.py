ID='contains-of-own-type'; PROPERTY='C05'
NEEDS='items and contains in one array, and a contains that names a type of its own'
BREAKS='the item for contains is not narrowed by items, so it can be one that items does not allow'
EDITS=[('array.go','''	if node.Items != nil && node.Items.Node != nil {
		mergedContains''','''	if node.Items != nil && node.Items.Node != nil && node.Contains.Type == nil {
		mergedContains''')]
BODY='''
	demoValid(t, `{"type":"array","items":{"type":"integer","minimum":100},"contains":{"type":"integer","multipleOf":3}}`, 20, &chaff.GeneratorOptions{})
'''
