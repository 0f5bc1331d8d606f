package main

import "strings"

// C10: not.

var notBases = []string{
	``, `"type":"integer"`, `"type":"integer","minimum":1,"maximum":4`, `"type":"number","minimum":1,"maximum":3`, `"type":"number","exclusiveMinimum":0,"exclusiveMaximum":4`, `"type":"integer","multipleOf":2,"minimum":0,"maximum":8`,
	`"type":"string"`, `"type":"string","minLength":1,"maxLength":3`, `"type":"string","pattern":"^[ab]{1,2}$"`,
	`"type":"object","properties":{"a":{"type":"integer","minimum":1,"maximum":3},"b":{"type":"string","maxLength":2}}`, `"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"]`, `"type":"object","minProperties":1,"maxProperties":3`,
	`"type":"object","properties":{"a":{"type":"integer","minimum":0,"maximum":2},"c":{"type":"boolean"}},"required":["a"],"additionalProperties":false`, `"type":"object","additionalProperties":{"type":"integer","minimum":1,"maximum":2},"maxProperties":2`,
	`"type":"array","items":{"type":"integer","minimum":0,"maximum":3}`, `"type":"array","items":{"type":"integer","minimum":0,"maximum":2},"minItems":1,"maxItems":3`, `"type":"array","prefixItems":[{"enum":[1,2]}],"minItems":1`,
	`"type":"boolean"`, `"type":"null"`, `"enum":[1,2,"a",null]`, `"const":1`, `"type":["string","integer"]`, `"type":["null","boolean","array"]`, `"minimum":2`, `"maxLength":2`, `"required":["a"]`,
	`"anyOf":[{"type":"integer","minimum":1,"maximum":3},{"type":"string","maxLength":1}]`, `"allOf":[{"type":"integer","minimum":1},{"maximum":3}]`,
}

var notSchemas = []string{
	`{"type":"integer"}`, `{"type":"number"}`, `{"type":"string"}`, `{"type":"boolean"}`, `{"type":"null"}`, `{"type":"object"}`, `{"type":"array"}`, `{"type":["string","null"]}`, `{"type":["integer","object"]}`,
	`{"minimum":3}`, `{"maximum":2}`, `{"exclusiveMinimum":3}`, `{"exclusiveMaximum":2}`, `{"multipleOf":2}`, `{"multipleOf":3}`, `{"type":"integer","minimum":3}`, `{"minimum":2,"maximum":3}`,
	`{"minLength":2}`, `{"maxLength":1}`, `{"pattern":"^a"}`, `{"type":"string","pattern":"b$"}`, `{"minLength":1,"maxLength":2}`,
	`{"const":1}`, `{"const":"a"}`, `{"const":null}`, `{"enum":[1,"a",3]}`, `{"enum":[2,null]}`, `{"const":{"a":1}}`, `{"enum":[[],[1]]}`,
	`{"required":["a"]}`, `{"required":["a","b"]}`, `{"minProperties":2}`, `{"maxProperties":0}`, `{"properties":{"a":{"const":1}}}`, `{"properties":{"a":{"const":1}},"required":["a"]}`, `{"properties":{"a":{"type":"integer"}}}`, `{"properties":{"a":{"minimum":2}},"required":["a"]}`,
	`{"additionalProperties":false}`, `{"additionalProperties":{"type":"integer"}}`, `{"patternProperties":{"^p":{"type":"string"}}}`,
	`{"items":{"type":"integer"}}`, `{"items":{"maximum":1}}`, `{"minItems":2}`, `{"maxItems":1}`, `{"contains":{"const":1}}`, `{"prefixItems":[{"const":1}]}`, `{"uniqueItems":true}`, `{"items":false}`,
	`{"not":{"type":"integer"}}`, `{"not":{"minimum":3}}`, `{"not":{"enum":[1,2,"a"]}}`, `{"not":{"not":{"const":1}}}`, `{"$ref":"#/$defs/x"}`, `{"not":{"$ref":"#/$defs/x"}}`, `{"allOf":[{"type":"integer"},{"minimum":3}]}`,
	`{"anyOf":[{"type":"integer"},{"type":"null"}]}`, `{"oneOf":[{"const":1},{"const":2}]}`, `{"if":{"type":"integer"},"then":{"minimum":3}}`, `{}`,
}

func notCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	opts := genOpts{UniqueAttempts: 20, IfAttempts: 20, OneOfAttempts: 20}
	search := searchCfg{smallN: 7, fullCap: 250, devBound: 1, devCap: 80, maxPos: 40}
	if th {
		search.fullCap, search.devBound, search.devCap = 3000, 2, 1000
	}
	add := func(fam, s string, exp int) {
		out = append(out, scase{family: fam, schema: withDefs(s), opts: opts, search: search, expect: exp})
	}
	// a value of the base that the negated schemas reject has to be found, unless the parser reports an error
	fair := func(fam, s string) {
		c := scase{family: fam, schema: withDefs(s), opts: opts, search: search, expect: expAny}
		if !strings.Contains(s, `"if"`) && witnessed(withDefs(s)) {
			c.fair = true
		}
		out = append(out, c)
	}
	join := func(b, rest string) string {
		if b == "" {
			return "{" + rest + "}"
		}
		return "{" + b + "," + rest + "}"
	}
	for _, b := range notBases {
		for _, n := range notSchemas {
			fair("not", join(b, `"not":`+n))
		}
	}
	for bi, b := range notBases {
		for i, n := range notSchemas {
			for j := i + 1; j < len(notSchemas); j++ {
				if !th && (bi+3*i+5*j)%9 != 0 {
					continue
				}
				m := notSchemas[j]
				switch (bi + i + j) % 3 {
				case 0:
					add("not-two", join(b, `"allOf":[{"not":`+n+`},{"not":`+m+`}]`), expAny)
				case 1:
					add("not-two", join(b, `"not":`+n+`,"allOf":[{"not":`+m+`}]`), expAny)
				case 2:
					add("not-two", join(b, `"not":{"anyOf":[`+n+`,`+m+`]}`), expAny)
				}
			}
		}
	}
	for _, b := range notBases {
		for i, n := range notSchemas {
			add("not-double", join(b, `"not":{"not":`+n+`}`), expAny)
			add("not-three", join(b, `"not":`+n+`,"allOf":[{"not":`+notSchemas[(i+7)%len(notSchemas)]+`},{"not":`+notSchemas[(i+19)%len(notSchemas)]+`}]`), expAny)
			if th {
				add("not-nested", `{"type":"object","properties":{"p":`+join(b, `"not":`+n)+`,"q":`+join(b, `"not":`+notSchemas[(i+5)%len(notSchemas)])+`},"required":["p","q"]}`, expAny)
			}
		}
	}
	for _, s := range []string{`{"type":"integer","minimum":1,"maximum":4,"not":{"minimum":3}}`, `{"type":"string","maxLength":2,"not":{"pattern":"^a"}}`, `{"enum":[1,2,"a",null],"not":{"enum":[2,null]}}`,
		`{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"not":{"properties":{"a":{"const":1}}}}`, `{"type":["string","integer","null"],"not":{"type":["string","null"]}}`} {
		for _, w := range wrapSchemas(s) {
			out = append(out, scase{family: "not-context", schema: w, opts: opts, search: search, expect: expParse, fair: true})
		}
	}
	for _, t := range []string{"object", "array", "number", "string", "boolean", "null", "integer"} {
		add("not-contradiction", `{"type":"`+t+`","not":{"type":"`+t+`"}}`, expReject)
		add("not-contradiction", `{"type":["`+t+`"],"not":{"type":["`+t+`","string"]}}`, expReject)
		add("not-contradiction", `{"type":"object","properties":{"a":{"type":"`+t+`","not":{"type":"`+t+`"}}},"required":["a"]}`, expReject)
	}
	for _, v := range []string{`1`, `"a"`, `null`, `{"a":1}`, `[1]`} {
		add("not-contradiction", `{"const":`+v+`,"not":{"const":`+v+`}}`, expReject)
		add("not-contradiction", `{"const":`+v+`,"not":{"enum":[`+v+`,2]}}`, expReject)
		add("not-contradiction", `{"enum":[`+v+`],"not":{"const":`+v+`}}`, expReject)
		add("not-contradiction", `{"enum":[`+v+`,2],"not":{"enum":[2,`+v+`]}}`, expReject)
	}
	for _, s := range []string{`{"type":"string","pattern":"^a+$","not":{"pattern":"^a+$"}}`, `{"type":"number","multipleOf":2,"not":{"multipleOf":2}}`, `{"type":"integer","multipleOf":4,"not":{"multipleOf":2}}`, `{"type":"number","minimum":3,"not":{"minimum":2}}`, `{"type":"integer","minimum":1,"maximum":3,"not":{"minimum":0,"maximum":5}}`,
		`{"type":"string","minLength":3,"not":{"minLength":2}}`, `{"type":"array","minItems":2,"not":{"minItems":1}}`, `{"type":"object","minProperties":2,"not":{"minProperties":1}}`, `{"type":["string","null"],"not":{"type":["null","string"]}}`} {
		add("not-contradiction", s, expReject)
	}
	return out
}

func init() {
	register(&property{
		id: "C10", level: "model_checking",
		rule: "one case per base schema and negated schema (single, two and three negations through allOf, doubly negated), and per schema context; non-trivial: a distinct generated value of a case",
		jobs: withMany("C10", func(tier string) []job { return caseJobs(notCases(tier), 20) }),
	})
}
