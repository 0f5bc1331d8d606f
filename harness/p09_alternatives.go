package main

import "strings"

// C09: anyOf / oneOf.

var altBranches = []string{
	`{"type":"integer","minimum":1,"maximum":3}`, `{"type":"integer","minimum":3,"maximum":6}`, `{"type":"number","minimum":2.5,"maximum":4}`, `{"type":"integer","multipleOf":2,"minimum":0,"maximum":8}`,
	`{"type":"string","minLength":2,"maxLength":3}`, `{"type":"string","pattern":"^[ab]{2}$"}`, `{"type":"boolean"}`, `{"type":"null"}`, `{"const":2}`, `{"enum":["ab",4,null]}`,
	`{"type":"object","properties":{"k":{"const":1}},"required":["k"]}`, `{"type":"object","properties":{"k":{"enum":[1,2]},"l":{"type":"boolean"}},"required":["k","l"]}`, `{"required":["k","m"]}`, `{"type":"object","properties":{"m":{"const":"x"}},"additionalProperties":false,"required":["m"]}`,
	`{"type":"array","items":{"type":"integer","minimum":0,"maximum":2},"minItems":1}`, `{"type":"array","prefixItems":[{"const":1},{"type":"boolean"}],"minItems":2}`, `{"type":["string","boolean"],"maxLength":1}`, `{"type":"array","items":[{"const":1},{"type":"boolean"}],"additionalItems":{"type":"null"},"minItems":2}`,
	`{"not":{"type":"string"},"type":["string","boolean"]}`, `{"allOf":[{"type":"integer","minimum":2},{"maximum":3}]}`, `{"$ref":"#/$defs/x"}`, `{"$ref":"#/$defs/y"}`, `{"anyOf":[{"const":2},{"const":"ab"}]}`, `{"oneOf":[{"type":"boolean"},{"const":3}]}`,
	`{"if":{"type":"integer"},"then":{"minimum":5,"maximum":7},"type":["integer","null"]}`,
}

var altSiblings = []string{
	``, `"type":"integer"`, `"type":"string"`, `"type":"object"`, `"type":"array"`, `"minimum":3`, `"maxLength":2`, `"required":["k"]`, `"properties":{"k":{"maximum":1}}`, `"minItems":2`, `"type":["integer","string","null"]`,
	`"not":{"const":2}`, `"if":{"type":"integer"},"then":{"maximum":4}`, `"enum":[1,2,3,4,"ab","a",null,true]`, `"allOf":[{"maximum":5}]`,
}

var altWitnesses = func() []interface{} {
	var out []interface{}
	for _, s := range []string{`null`, `true`, `false`, `0`, `1`, `2`, `3`, `4`, `5`, `6`, `7`, `8`, `2.5`, `3.5`, `"a"`, `"b"`, `"ab"`, `"zz"`, `"zzz"`, `""`, `{"k":1}`, `{"k":2}`, `{"k":1,"l":true}`, `{"k":2,"l":false}`, `{"k":1,"m":"x"}`, `{"k":5,"m":1}`, `{"m":"x"}`, `{"k":2,"l":true,"m":1}`, `[0]`, `[1]`, `[2,1]`, `[1,true]`, `[1,2]`, `[1,0,2]`, `{}`, `[]`, `{"k":3}`, `{"k":{"k":1}}`, `{"k":{"k":2}}`, `{"k":{"k":3}}`, `[2]`, `[3]`, `[1,3]`, `[2,3]`, `[3,3]`, `[{"k":1}]`, `[{"k":2}]`, `[{"k":3}]`, `{"k":[1]}`, `{"k":[2]}`, `{"k":[3]}`} {
		out = append(out, mustDecode(s))
	}
	return out
}()

func altCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	opts := genOpts{UniqueAttempts: 20, IfAttempts: 20, OneOfAttempts: 20}
	search := searchCfg{smallN: 7, fullCap: 250, devBound: 1, devCap: 80, maxPos: 40}
	if th {
		search.fullCap, search.devBound, search.devCap = 3000, 2, 1000
	}
	add := func(fam, kw, sib string, exp int, branches ...string) {
		s := `{"` + kw + `":[` + strings.Join(branches, ",") + `]`
		if sib != "" {
			s += "," + sib
		}
		s += "}"
		s = withDefs(s)
		c := scase{family: fam, schema: s, opts: opts, search: search, expect: exp}
		whole := newValidator(mustDecode(s))
		for _, b := range branches {
			b := b
			vb := newValidator(mustDecode(withDefs(b)))
			// a value of this branch only (oneOf: valid values match one branch anyway)
			var others []*validator
			for _, o := range branches {
				if o != b {
					others = append(others, newValidator(mustDecode(withDefs(o))))
				}
			}
			only := func(v interface{}) bool {
				if vb.check(v) != "" {
					return false
				}
				for _, o := range others {
					if o.check(v) == "" {
						return false
					}
				}
				return true
			}
			for _, w := range altWitnesses {
				if whole.check(w) == "" && only(w) {
					c.reach = append(c.reach, reach{"a value of branch " + b + " only", func(v interface{}, raw string) bool { return only(v) }})
					break
				}
			}
		}
		if len(c.reach) > 0 {
			c.fair = true
		}
		out = append(out, c)
	}
	raw := func(fam, s string) {
		out = append(out, scase{family: fam, schema: s, opts: opts, search: search, expect: expParse, fair: true})
	}
	for _, kw := range []string{"anyOf", "oneOf"} {
		for i, a := range altBranches {
			for si, sib := range altSiblings {
				add(kw+"1", kw, sib, expAny, a)
				for j, b := range altBranches {
					if a == b || (!th && si > 0 && (i+2*j+3*si)%4 != 0) {
						continue
					}
					add(kw, kw, sib, expAny, a, b)
				}
			}
			for j := i + 1; j < len(altBranches); j++ {
				for k := j + 1; k < len(altBranches); k++ {
					if !th && (i+j+k)%3 != 0 {
						continue
					}
					add(kw+"3", kw, "", expAny, altBranches[i], altBranches[j], altBranches[k])
				}
			}
		}
	}
	// the same branch twice, written the same way or another
	for i, a := range altBranches {
		for j, b := range altBranches {
			if i == j || (!th && (i+j)%3 != 0) {
				continue
			}
			for _, kw := range []string{"anyOf", "oneOf"} {
				add(kw+"-repeated", kw, "", expAny, a, a, b)
				add(kw+"-repeated", kw, "", expAny, a, b, a)
				add(kw+"-repeated", kw, "", expAny, a, b, `{"title":"again",`+a[1:])
			}
		}
	}
	// both keywords
	for i, a := range altBranches {
		for j, b := range altBranches {
			if !th && (i+j)%2 != 0 {
				continue
			}
			add("anyOf+oneOf", "anyOf", `"oneOf":[`+b+`,{"type":"boolean"}]`, expAny, a, `{"type":"integer"}`)
		}
	}
	// alternatives that narrow the same part of what they stand in, each in its own way
	v1, v2, v3 := `{"const":1}`, `{"const":2}`, `{"enum":[1,2,3]}`
	for _, n := range []struct{ parent, part string }{
		{`"type":"object","properties":{"k":@},"required":["k"],"additionalProperties":false`, `{"properties":{"k":@}}`},
		{`"type":"object","properties":{"k":@},"additionalProperties":false`, `{"properties":{"k":@},"required":["k"]}`},
		{`"type":"object","properties":{"k":{"type":"object","properties":{"k":@},"required":["k"]}},"required":["k"],"additionalProperties":false`, `{"properties":{"k":{"properties":{"k":@}}}}`},
		{`"type":"object","patternProperties":{"^k$":@},"minProperties":1,"additionalProperties":false`, `{"patternProperties":{"^k$":@}}`},
		{`"type":"object","patternProperties":{"^k$":{"type":"object","patternProperties":{"^k$":@},"minProperties":1,"additionalProperties":false}},"minProperties":1,"additionalProperties":false`, `{"patternProperties":{"^k$":{"patternProperties":{"^k$":@}}}}`},
		{`"type":"object","patternProperties":{"^k$":@},"required":["k"],"additionalProperties":false`, `{"patternProperties":{"^k$":@}}`},
		{`"type":"object","additionalProperties":@,"minProperties":1,"maxProperties":1`, `{"additionalProperties":@}`},
		{`"type":"array","items":@,"minItems":1,"maxItems":2`, `{"items":@}`},
		{`"type":"array","prefixItems":[@,@],"minItems":2,"maxItems":2`, `{"prefixItems":[@]}`},
		{`"type":"array","prefixItems":[@],"minItems":1,"maxItems":1`, `{"prefixItems":[@]}`},
		{`"type":"array","items":{"type":"object","properties":{"k":@},"required":["k"],"additionalProperties":false},"minItems":1,"maxItems":1`, `{"items":{"properties":{"k":@}}}`},
		{`"type":"object","properties":{"k":{"type":"array","items":@,"minItems":1,"maxItems":1}},"required":["k"],"additionalProperties":false`, `{"properties":{"k":{"items":@}}}`},
		{`"type":"object","properties":{"k":{"allOf":[@]}},"required":["k"],"additionalProperties":false`, `{"properties":{"k":{"allOf":[@]}}}`},
		{`"type":"object","properties":{"k":{"anyOf":[@]}},"required":["k"],"additionalProperties":false`, `{"properties":{"k":{"anyOf":[@]}}}`},
		{`"type":"object","properties":{"k":@},"required":["k"],"additionalProperties":false`, `{"properties":{"k":{"not":{"not":@}}}}`},
		{`"allOf":[{"type":"object","properties":{"k":@},"required":["k"]}],"properties":{"k":{}},"additionalProperties":false`, `{"allOf":[{"properties":{"k":@}}]}`},
		{`"allOf":[{"type":"object","patternProperties":{"^k$":@},"required":["k"]}]`, `{"allOf":[{"patternProperties":{"^k$":@}}]}`},
	} {
		parent := strings.ReplaceAll(n.parent, "@", v3)
		branch := func(v string) string { return strings.ReplaceAll(n.part, "@", v) }
		for _, kw := range []string{"anyOf", "oneOf"} {
			add("alt-narrow", kw, parent, expParse, branch(v1), branch(v2))
			add("alt-narrow", kw, parent, expParse, branch(v1), branch(v2), branch(`{"const":3}`))
			add("alt-narrow", kw, parent, expParse, branch(`{"enum":[1,4]}`), branch(`{"enum":[5,2]}`))
			raw("alt-narrow-outer", `{"type":"array","items":{`+parent+`,"`+kw+`":[`+branch(v1)+`,`+branch(v2)+`]},"minItems":2,"maxItems":2}`)
			raw("alt-narrow-outer", `{`+parent+`,"allOf":[{"`+kw+`":[`+branch(v1)+`,`+branch(v2)+`]}]}`)
			raw("alt-narrow-outer", `{"`+kw+`":[{"allOf":[{`+parent+`},`+branch(v1)+`]},{"allOf":[{`+parent+`},`+branch(v2)+`]}]}`)
			raw("alt-narrow-outer", withDefs(`{"`+kw+`":[{"allOf":[{"$ref":"#/definitions/p"},`+branch(v1)+`]},{"allOf":[{"$ref":"#/definitions/p"},`+branch(v2)+`]}],"definitions":{"p":{`+parent+`}}}`))
			// the first narrowing happens where the second cannot know of it
			raw("alt-narrow-outer", withDefs(`{"type":"object","properties":{"x":{"$ref":"#/definitions/p"},"y":{"allOf":[{"$ref":"#/definitions/p"},`+branch(v1)+`]},"z":{"allOf":[{"$ref":"#/definitions/p"},`+branch(v2)+`]}},"required":["x","y","z"],"definitions":{"p":{`+parent+`}}}`))
		}
	}
	// every context, and names that only differ in punctuation
	nested := []string{`{"oneOf":[{"type":"integer","minimum":1,"maximum":3},{"type":"integer","minimum":3,"maximum":5}]}`, `{"oneOf":[{"multipleOf":2,"type":"integer","minimum":0,"maximum":6},{"const":4},{"type":"string","maxLength":1}]}`,
		`{"anyOf":[{"type":"object","properties":{"k":{"const":1}},"required":["k"]},{"const":"q"}]}`, `{"oneOf":[{"type":"object","additionalProperties":true,"properties":{"k":{"enum":[1,2]}},"required":["k"]},{"type":"object","properties":{"k":{"const":2}},"required":["k"]}]}`}
	for _, s := range nested {
		for _, w := range wrapSchemas(s) {
			raw("alt-context", w)
		}
	}
	one := func(a, b string) string { return `{"oneOf":[` + a + `,` + b + `]}` }
	variants := []string{one(`{"enum":[1,2]}`, `{"enum":[2,3]}`), one(`{"enum":[1,2]}`, `{"enum":[1,3]}`), one(`{"enum":["x",2]}`, `{"enum":["x",3,1]}`)}
	names := []string{"a-b", "a.b", "a b", "a,b", "a/b", "a_b", "a#b"}
	for i, n := range names {
		for j, m := range names {
			if i == j {
				continue
			}
			for k, v := range variants {
				w := variants[(k+1)%len(variants)]
				raw("alt-names", `{"type":"object","properties":{"`+n+`":`+v+`,"`+m+`":`+w+`},"required":["`+n+`","`+m+`"]}`)
			}
		}
	}
	for k, v := range variants {
		w := variants[(k+1)%len(variants)]
		raw("alt-deep", `{"type":"object","properties":{"a":{"type":"object","properties":{"b":`+v+`},"required":["b"]},"a_properties_b":`+w+`,"a/properties/b":`+w+`},"required":["a","a_properties_b"]}`)
		raw("alt-deep", `{"type":"array","prefixItems":[`+v+`,`+w+`],"items":`+variants[(k+2)%3]+`,"minItems":3,"maxItems":3}`)
		raw("alt-deep", `{"allOf":[{"if":{"properties":{"t":{"const":1}}},"then":{"properties":{"v":`+v+`}}},{"if":{"properties":{"t":{"const":2}}},"then":{"properties":{"v":`+w+`}}}],"type":"object","properties":{"t":{"enum":[1,2]},"v":{}},"required":["t","v"]}`)
		raw("alt-deep", `{"anyOf":[{"type":"object","properties":{"p":`+v+`},"required":["p"]},{"type":"object","properties":{"p":`+w+`,"q":`+v+`},"required":["p","q"]}]}`)
		raw("alt-deep", `{"type":"object","properties":{"p":{"$ref":"#/$defs/v"},"q":{"$ref":"#/$defs/w"},"r":{"$ref":"#/$defs/v"}},"required":["p","q","r"],"$defs":{"v":`+v+`,"w":`+w+`}}`)
	}
	return out
}

func init() {
	register(&property{
		id: "C09", level: "model_checking",
		rule: "one case per ordered pair and unordered triple of branches as anyOf and as oneOf, with every sibling keyword set, both keywords together, and per schema context; non-trivial: a distinct generated value of a case",
		jobs: withMany("C09", func(tier string) []job { return caseJobs(altCases(tier), 20) }),
	})
}
