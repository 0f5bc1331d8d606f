ID='oneof-passes-when-minimized'; PROPERTY='C14'
NEEDS='a oneOf with overlapping branches reached after MaximumGenerationSteps but before CutoffGenerationSteps'
BREAKS='the oneOf check is skipped once generation is minimised'
EDITS=[('combination.go','		if oc.constraintPassed(generatedValue) {','		if generatorOptions.ShouldMinimize() || oc.constraintPassed(generatedValue) {')]
BODY='''
	demoValid(t, `{"type":"array","minItems":60,"maxItems":60,"items":{"oneOf":[{"type":"integer","minimum":0,"maximum":6},{"type":"integer","minimum":4,"maximum":9}]}}`, 5, &chaff.GeneratorOptions{})
'''
