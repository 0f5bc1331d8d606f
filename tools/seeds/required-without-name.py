ID='required-without-name'; PROPERTY='C04'
NEEDS='a required property with the empty name'
BREAKS='the empty name in required is passed over, so the required property can be missing'
EDITS=[('object.go','''	for _, key := range g.Required {
		// If''','''	for _, key := range funk.FilterString(g.Required, func(key string) bool { return key != "" }) {
		// If''')]
BODY='''
	demoValid(t, `{"type":"object","properties":{"":{"type":"boolean"}},"required":[""]}`, 5, &chaff.GeneratorOptions{})
'''
