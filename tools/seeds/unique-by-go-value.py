ID='unique-by-go-value'; PROPERTY='C05'
NEEDS='unique items of which equal numbers come from generators of integers and of other numbers'
BREAKS='items are told apart by their Go value: an integer generated as int and the equal number listed by an enum count as different'
EDITS=[('array.go','''	currentItems := funk.Map(arrayData, util.MarshalJsonToString).([]string)

''',''''''),('array.go','''		if !funk.Contains(currentItems, util.MarshalJsonToString(item)) {''','''		if !funk.Contains(arrayData, item) {''')]
BODY='''
	demoValid(t, `{"type":"array","items":{"anyOf":[{"type":"integer","minimum":1,"maximum":2},{"enum":[1,2]}]},"uniqueItems":true,"minItems":2,"maxItems":2}`, 300, &chaff.GeneratorOptions{})
'''
