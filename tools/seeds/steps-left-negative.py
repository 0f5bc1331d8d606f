ID='steps-left-negative'; PROPERTY='C16'
NEEDS='a negative CutoffGenerationSteps (no cutoff) and an object generated after MaximumGenerationSteps'
BREAKS='the number of properties is limited to the steps left before the cutoff, which is negative without a cutoff: generation panics'
EDITS=[('object.go','''		generatorTarget = minimumExtrasToGenerate
''','''		// No more properties than there are steps left until the cutoff
		generatorTarget = util.MinInt(minimumExtrasToGenerate, opts.CutoffGenerationSteps-opts.overallComplexity)
''')]
BODY='''
	g := demoParse(t, `{"type":"array","minItems":20,"maxItems":20,"items":{"type":"object","properties":{"a":{"const":1}}}}`)
	g.Generate(&chaff.GeneratorOptions{MaximumGenerationSteps: 1, CutoffGenerationSteps: -1})
'''
