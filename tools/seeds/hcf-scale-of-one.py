ID='hcf-scale-of-one'; PROPERTY='C08'
NEEDS='two multipleOf in allOf of which the first has more decimals than the second, and none divides the other'
BREAKS='both are scaled by the decimals of the second one: the merged multiple is not one of the first'
EDITS=[('internal/util/util.go','''	scale := math.Pow(10, float64(math.Max(countDecimalPlaces(*a), countDecimalPlaces(*b))))
''','''	scale := math.Pow(10, countDecimalPlaces(math.Min(*a, *b)))
''')]
BODY='''
	for i := 0; i < 20; i++ {
		demoValid(t, `{"type":"number","minimum":0,"maximum":100,"allOf":[{"multipleOf":1.25},{"multipleOf":0.5}]}`, 10, &chaff.GeneratorOptions{})
	}
'''
