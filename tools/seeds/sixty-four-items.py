ID='sixty-four-items'; PROPERTY='C05'
NEEDS='an array whose minItems is more than the items that get generated at most'
BREAKS='the loop that fills an array up to minItems ends after 64 items'
EDITS=[('array.go','''	for i := 0; i < itemsToGenerate || minItems > len(arrayData); i++ {''','''	const maximumItems = 64
	for i := 0; i < maximumItems && (i < itemsToGenerate || minItems > len(arrayData)); i++ {''')]
BODY='''
	demoValid(t, `{"type":"array","items":{"type":"boolean"},"minItems":70}`, 5, &chaff.GeneratorOptions{})
'''
