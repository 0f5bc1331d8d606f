ID='not-required-null'; PROPERTY='C10'
NEEDS='an object that must not have a property, and a value of null for that property'
BREAKS='a property of null counts as absent for the properties a not rules out'
EDITS=[('constraint.go','''				if _, exists := objValue[prop]; exists {''','''				if propValue := objValue[prop]; propValue != nil {'''),('constraint.go','''			return schema.Validate(value) != nil
''','''			if objValue, ok := value.(map[string]interface{}); ok && len(mc.mustNotHaveProperties) > 0 && len(objValue) > 0 {
				return true
			}

			return schema.Validate(value) != nil
''')]
BODY='''
	demoValid(t, `{"type":"object","minProperties":1,"patternProperties":{"^[ab]$":{"type":"null"}},"additionalProperties":false,"not":{"required":["a"]}}`, 20, &chaff.GeneratorOptions{})
'''
