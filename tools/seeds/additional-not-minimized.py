ID='additional-not-minimized'; PROPERTY='C13'
NEEDS='an object that recurs over additionalProperties, past MaximumGenerationSteps'
BREAKS='objects with an additionalProperties schema are not reduced to the minimum once the step limit is passed, recursion over them grows until it is cut off'
EDITS=[('object.go','''	if opts.ShouldMinimize() {
		generatorTarget''','''	if opts.ShouldMinimize() && g.AdditionalProperties == nil {
		generatorTarget''')]
BODY='''
	demoValid(t, `{"type":"object","additionalProperties":{"$ref":"#"}}`, 30, &chaff.GeneratorOptions{MaximumReferenceDepth: 60, BypassCyclicReferenceCheck: true, DefaultObjectMaxProperties: 3})
'''
