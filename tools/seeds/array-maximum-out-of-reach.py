ID='array-maximum-out-of-reach'; PROPERTY='C23'
NEEDS='an array with minItems above 0 and contains or a tuple'
BREAKS='the longest arrays the schema allows are never generated'
EDITS=[('array.go','''util.MaxInt(0, maxItems-(tupleLength+g.MinContains))''','''util.MaxInt(0, maxItems-util.MaxInt(minItems, tupleLength+g.MinContains))''')]
BODY='''
	g := demoParse(t, `{"type":"array","items":{"const":1},"minItems":2,"maxItems":4}`)
	seen := map[int]bool{}
	for i := 0; i < 300; i++ {
		seen[len(g.GenerateWithDefaults().([]interface{}))] = true
	}
	if !seen[2] || !seen[3] || !seen[4] {
		t.Fatalf("lengths: %v", seen)
	}
'''
