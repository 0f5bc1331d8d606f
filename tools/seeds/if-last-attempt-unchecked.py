ID='if-last-attempt-unchecked'; PROPERTY='C11'
NEEDS='a conditional schema whose condition or branch is not satisfied in any of MaximumIfAttempts attempts'
BREAKS='the value of the last attempt is returned although it does not satisfy the conditions, instead of the failure message'
EDITS=[('if.go','''		if allSatisfied {
			return currentValue''','''		if allSatisfied || (i > 0 && i == maxAttempts-1) {
			return currentValue''')]
BODY='''
	for i := 0; i < 300; i++ {
		g := demoParse(t, `{"type":"object","properties":{"a":{"enum":[1,2,3,4,5,6,7,8]},"b":{"enum":[1,2,3,4,5,6,7,8]}},"required":["a","b"],"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"b":{"const":1}}},"else":{"properties":{"b":{"const":2}}}}`)
		raw := demoJSON(t, g.Generate(&chaff.GeneratorOptions{MaximumIfAttempts: 2, Rand: rand.NewRandUtil(int64(i))}))
		if strings.HasPrefix(raw, `"Failed`) || raw == `{"a":1,"b":1}` || !strings.Contains(raw, `"a":1`) && strings.HasSuffix(raw, `"b":2}`) {
			continue
		}
		t.Fatal(raw)
	}
'''
