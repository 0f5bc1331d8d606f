package main

import (
	"fmt"
	"strings"
)

// C11: if / then / else.

var ifParents = []string{
	``, `"type":"integer","minimum":0,"maximum":6`, `"type":["integer","string","null"]`, `"type":"string","maxLength":3`, `"enum":[1,2,"a","bb",null,{"t":1}]`,
	`"type":"object","properties":{"t":{"enum":[1,2]},"v":{"type":"integer","minimum":0,"maximum":4}},"required":["t"]`,
	`"type":"object","properties":{"t":{"type":"boolean"},"v":{},"w":{"type":"string","maxLength":1}},"additionalProperties":false`,
	`"type":"object","properties":{"t":{"enum":["x","y"]},"v":{"type":["integer","string"]}},"required":["t","v"]`,
	`"type":"array","items":{"type":"integer","minimum":0,"maximum":3},"minItems":1,"maxItems":4`,
	`"type":"array","prefixItems":[{"enum":["x","y"]}],"items":{"type":"integer","minimum":0,"maximum":3},"minItems":2`,
	`"oneOf":[{"type":"integer","minimum":1,"maximum":4},{"type":"string","maxLength":2}]`, `"anyOf":[{"const":1},{"const":"a"},{"type":"integer","minimum":3,"maximum":5}]`, `"type":"integer","minimum":0,"maximum":6,"not":{"const":3}`,
}

var ifConds = []string{
	`{"type":"integer"}`, `{"minimum":3}`, `{"type":"string"}`, `{"const":1}`, `{"multipleOf":2}`, `{"maxLength":1}`, `{"enum":[1,"a"]}`,
	`{"properties":{"t":{"const":1}},"required":["t"]}`, `{"properties":{"t":{"const":true}}}`, `{"properties":{"t":{"const":"x"}}}`, `{"required":["v"]}`, `{"properties":{"v":{"type":"integer","minimum":2}},"required":["v"]}`,
	`{"minItems":2}`, `{"contains":{"const":1}}`, `{"prefixItems":[{"const":"x"}]}`, `{"not":{"type":"string"}}`, `{"anyOf":[{"const":1},{"type":"null"}]}`, `{"allOf":[{"minimum":2},{"maximum":4}]}`, `{"$ref":"#/$defs/x"}`, `{}`, `{"maxProperties":1}`,
}

var ifBodies = []string{
	``, `{"minimum":2}`, `{"maximum":4}`, `{"type":"integer"}`, `{"maxLength":2}`, `{"const":1}`, `{"enum":[2,5,"bb"]}`, `{"required":["v"]}`, `{"properties":{"v":{"const":3}}}`, `{"properties":{"v":{"type":"string","maxLength":2}},"required":["v"]}`,
	`{"properties":{"v":{"minimum":1}},"required":["v"]}`, `{"maxItems":2}`, `{"contains":{"const":3}}`, `{"items":{"maximum":2}}`, `{"not":{"const":2}}`, `{"oneOf":[{"const":2},{"const":4},{"type":"string"}]}`, `{"if":{"minimum":4},"then":{"multipleOf":2},"else":{"maximum":2}}`, `{"$ref":"#/$defs/x"}`,
	`{"allOf":[{"minimum":1},{"multipleOf":3}]}`, `{"additionalProperties":false,"properties":{"t":{},"v":{}}}`, `{"minProperties":2}`,
}

var ifWitnesses = func() []interface{} {
	out := append([]interface{}{}, allOfWitnesses...)
	for _, s := range []string{`"bb"`, `"x"`, `{"t":1}`, `{"t":2}`, `{"t":1,"v":3}`, `{"t":2,"v":0}`, `{"t":1,"v":1}`, `{"t":true}`, `{"t":false}`, `{"t":true,"v":3}`, `{"t":true,"v":"a"}`, `{"v":3}`, `{"v":"a"}`, `{"t":"x","v":3}`, `{"t":"y","v":1}`, `{"t":"x","v":"a"}`, `{"t":"y","v":"a"}`, `{"t":"x","v":1}`,
		`[1,3]`, `[0]`, `[3]`, `[1,2]`, `["x",3]`, `["y",1]`, `["x",1]`, `["x",1,3]`, `["y",1,3]`, `["x",0]`, `["y",0]`} {
		out = append(out, mustDecode(s))
	}
	return out
}()

func ifWitnessed(judge string) bool { return satisfiable(judge, ifWitnesses) }

func ifText(cond, then, els string) string {
	s := `"if":` + cond
	if then != "" {
		s += `,"then":` + then
	}
	if els != "" {
		s += `,"else":` + els
	}
	return s
}

func ifCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	opts := genOpts{UniqueAttempts: 20, IfAttempts: 20, OneOfAttempts: 10, Cutoff: 20000}
	search := searchCfg{smallN: 7, fullCap: 80, devBound: 1, devCap: 25, maxPos: 40}
	if th {
		search.fullCap, search.devBound, search.devCap = 2500, 2, 800
	}
	join := func(parts ...string) string {
		s := "{"
		for _, p := range parts {
			if p == "" {
				continue
			}
			if s != "{" {
				s += ","
			}
			s += p
		}
		return s + "}"
	}
	add := func(fam, s string) {
		s = withDefs(s)
		out = append(out, scase{family: fam, schema: s, opts: opts, search: search, expect: expAny, fair: fam == "if" && s[2] != 'i' && !strings.HasPrefix(s, `{"type":["int`) && ifWitnessed(s)})
	}
	for pi, p := range ifParents {
		for ci, c := range ifConds {
			for ti, t := range ifBodies {
				for ei, e := range ifBodies {
					if t == "" && e == "" || (!th && t != "" && e != "" && (pi+ci+3*ti+5*ei)%25 != 0) {
						continue
					}
					add("if", join(p, ifText(c, t, e)))
				}
			}
		}
	}
	// two and three conditions on one value
	n := 0
	for pi, p := range ifParents {
		for ci, c := range ifConds {
			for di, d := range ifConds {
				for _, b := range []int{0, 1, 2} {
					n++
					if !th && (pi+2*ci+3*di+b)%9 != 0 {
						continue
					}
					t1, t2, e2 := ifBodies[1+(pi+ci+7*b)%(len(ifBodies)-1)], ifBodies[1+(pi+di+5*b+3)%(len(ifBodies)-1)], ifBodies[(ci+di+b)%len(ifBodies)]
					switch n % 3 {
					case 0:
						add("if-two", join(p, `"allOf":[{`+ifText(c, t1, "")+`},{`+ifText(d, t2, e2)+`}]`))
					case 1:
						add("if-two", join(p, ifText(c, t1, e2), `"allOf":[{`+ifText(d, "", t2)+`}]`))
					case 2:
						add("if-three", join(p, ifText(c, t1, ""), `"allOf":[{`+ifText(d, t2, "")+`},{`+ifText(ifConds[(ci+di)%len(ifConds)], e2, t1)+`}]`))
					}
				}
			}
		}
	}
	// conditions that are merged level by level
	n = 0
	for pi, p := range ifParents {
		for ci, c := range ifConds {
			for di, d := range ifConds {
				if !th && (pi+2*ci+5*di)%13 != 0 {
					continue
				}
				body := func(k int) string { return ifBodies[1+(pi+3*ci+5*di+7*k)%(len(ifBodies)-1)] }
				a := ifText(c, body(0), "")
				b := ifText(d, body(1), ifBodies[(ci+di)%len(ifBodies)])
				e := ifText(ifConds[(ci+2*di+1)%len(ifConds)], body(2), "")
				for v, s := range []string{
					join(p, a, `"allOf":[{"allOf":[{`+b+`}]}]`),
					join(p, `"allOf":[{`+a+`,"allOf":[{`+b+`}]},{"allOf":[{`+e+`}]}]`),
					`{"allOf":[` + join(p, a) + `,{"$ref":"#/definitions/n"}],"definitions":{"n":{"allOf":[{` + b + `},{` + e + `}]}}}`,
					join(p, `"allOf":[{`+a+`}]`, `"anyOf":[{`+b+`},{"allOf":[{`+e+`}]}]`),
					join(p, b, `"allOf":[{`+a+`},{"not":{"const":2}},{"not":{"const":"a"}}]`),
					join(p, ifText(c, `{"allOf":[{`+b+`}]}`, ""), `"allOf":[{`+e+`}]`),
					`{"type":"object","properties":{"n":` + join(p, a) + `},"required":["n"],"additionalProperties":false,"allOf":[{"properties":{"n":{"allOf":[{` + b + `}]}}},{"properties":{"n":{` + e + `}}}]}`,
					`{"allOf":[` + join(p) + `,{"allOf":[{` + a + `},{"allOf":[{` + b + `}]}]},{"allOf":[{` + e + `}]}]}`,
					join(p, a, `"oneOf":[{`+b+`},{"type":"boolean","allOf":[{`+e+`}]}]`),
					`{"anyOf":[{"allOf":[` + join(p, a) + `,{"allOf":[{` + b + `}]}]},{"$ref":"#/definitions/n"}],"definitions":{"n":{"allOf":[{"allOf":[` + join(p, e) + `]},{` + b + `}]}}}`,
				} {
					if !th && v != n%10 && v != (n+4)%10 {
						continue
					}
					add(fmt.Sprintf("if-nested-%d", v), s)
				}
				n++
			}
		}
	}
	// every context
	for _, s := range []string{`{"type":"object","properties":{"t":{"enum":[1,2]},"v":{"type":"integer","minimum":0,"maximum":4}},"required":["t","v"],"if":{"properties":{"t":{"const":1}}},"then":{"properties":{"v":{"maximum":1}}},"else":{"properties":{"v":{"minimum":2}}}}`,
		`{"type":["integer","string"],"maxLength":2,"minimum":0,"maximum":5,"if":{"type":"integer"},"then":{"minimum":3}}`,
		`{"type":"integer","minimum":0,"maximum":9,"allOf":[{"if":{"multipleOf":2},"then":{"minimum":4}},{"if":{"multipleOf":3},"then":{"maximum":6}}]}`} {
		for _, w := range wrapSchemas(s) {
			out = append(out, scase{family: "if-context", schema: w, opts: opts, search: search, expect: expParse, fair: true})
		}
	}
	// both sides of the condition have to be reachable
	for _, x := range []struct {
		s    string
		a, b func(v interface{}, raw string) bool
	}{
		{`{"type":"object","properties":{"t":{"enum":[1,2]},"v":{"type":"integer","minimum":0,"maximum":3}},"required":["t","v"],"if":{"properties":{"t":{"const":1}}},"then":{"properties":{"v":{"const":1}}},"else":{"properties":{"v":{"const":2}}}}`,
			func(v interface{}, raw string) bool { return raw == `{"t":1,"v":1}` }, func(v interface{}, raw string) bool { return raw == `{"t":2,"v":2}` }},
		{`{"type":"integer","minimum":0,"maximum":5,"if":{"minimum":3},"then":{"const":4},"else":{"const":1}}`,
			func(v interface{}, raw string) bool { return raw == `4` }, func(v interface{}, raw string) bool { return raw == `1` }},
		{`{"type":"boolean","if":{"const":true},"then":{"type":"boolean"}}`,
			func(v interface{}, raw string) bool { return raw == `true` }, func(v interface{}, raw string) bool { return raw == `false` }},
	} {
		out = append(out, scase{family: "if-reach", schema: x.s, opts: opts, search: search, expect: expParse, fair: true, reach: []reach{{"a value matching the condition", x.a}, {"a value not matching the condition", x.b}}})
	}
	return out
}

func init() {
	register(&property{
		id: "C11", level: "model_checking",
		rule: "one case per parent schema, condition, then and else body (both bodies: 1 in 25 of the product in the quick tier), two and three conditions on one value, and per schema context; non-trivial: a distinct generated value of a case",
		jobs: withMany("C11", func(tier string) []job { return caseJobs(ifCases(tier), 20) }),
	})
}
