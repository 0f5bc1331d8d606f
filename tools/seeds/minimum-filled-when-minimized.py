ID='minimum-filled-when-minimized'; PROPERTY='C04'
NEEDS='an object with a minimum number of properties and optional properties that are the only ones allowed, generated after the step limit'
BREAKS='no optional properties are generated once the step limit is passed, the minimum is made up of properties the schema does not allow'
EDITS=[('object.go','''		generatorTarget = minimumExtrasToGenerate
''','''		generatorTarget = 0
''')]
BODY='''
	demoValid(t, `{"type":"array","minItems":400,"maxItems":400,"items":{"type":"object","properties":{"a":{"const":1},"b":{"const":2}},"additionalProperties":false,"minProperties":1}}`, 5, &chaff.GeneratorOptions{})
'''
