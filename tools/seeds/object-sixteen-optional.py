ID='object-sixteen-optional'; PROPERTY='C04'
NEEDS='an object that needs more than sixteen of its optional properties to reach minProperties'
BREAKS='at most sixteen optional properties are generated, and the rest is not made up for when no others are allowed'
EDITS=[('object.go','''	numberOfOptionalKeysToGenerate := util.MinInt(len(optionalKeys), generatorTarget)
''','''	const maximumOptionalKeys = 16
	numberOfOptionalKeysToGenerate := util.MinInt(util.MinInt(len(optionalKeys), generatorTarget), maximumOptionalKeys)
''')]
BODY='''
	props := ""
	for i := 0; i < 20; i++ {
		if i > 0 {
			props += ","
		}
		props += fmt.Sprintf(`"p%d":{"type":"boolean"}`, i)
	}
	demoValid(t, `{"type":"object","properties":{`+props+`},"additionalProperties":false,"minProperties":18}`, 5, &chaff.GeneratorOptions{})
'''
