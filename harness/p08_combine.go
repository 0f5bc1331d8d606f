package main

import (
	"strings"
)

// C08: allOf.

var allOfBranches = []string{
	`{"type":"integer"}`, `{"type":"number"}`, `{"type":"string"}`, `{"type":"object"}`, `{"type":"array"}`, `{"type":["string","integer"]}`, `{"type":["boolean","string"]}`,
	`{"type":"number","minimum":2}`, `{"maximum":6}`, `{"type":"integer","minimum":4,"maximum":9}`, `{"multipleOf":2}`, `{"type":"integer","multipleOf":3}`, `{"exclusiveMinimum":5}`,
	`{"type":"string","minLength":3}`, `{"maxLength":5}`, `{"type":"string","pattern":"^a[bc]{2,3}$"}`,
	`{"type":"object","properties":{"a":{"type":"integer","minimum":1,"maximum":4}}}`, `{"required":["a"]}`, `{"properties":{"a":{"maximum":2}},"required":["a"]}`, `{"type":"object","properties":{"b":{"type":"boolean"}},"required":["b"]}`,
	`{"minProperties":2}`, `{"maxProperties":3}`, `{"additionalProperties":{"type":"integer","minimum":1,"maximum":2}}`, `{"patternProperties":{"^p[0-9]$":{"const":1}}}`,
	`{"properties":{"a":{},"b":{"type":"boolean"}},"additionalProperties":false}`, `{"patternProperties":{"^p[0-9]$":{"maximum":3}},"additionalProperties":false}`,
	`{"type":"array","items":{"type":"integer","minimum":0,"maximum":3}}`, `{"items":{"maximum":2}}`, `{"minItems":2}`, `{"maxItems":3}`, `{"prefixItems":[{"type":"integer"},{"type":"integer","maximum":1}]}`, `{"uniqueItems":true}`, `{"contains":{"const":1}}`,
	`{"prefixItems":[{"minimum":1}],"items":{"type":"integer","minimum":-2,"maximum":5}}`, `{"prefixItems":[{"type":"integer","maximum":4}],"items":false}`,
	`{"items":[{"type":"integer","minimum":1}],"additionalItems":{"type":"integer","minimum":-1,"maximum":3}}`, `{"type":"array","items":[{"type":"integer","maximum":4}],"additionalItems":false}`,
	`{"enum":[1,2,"a",5]}`, `{"enum":[2,5,6,"abb"]}`, `{"const":5}`, `{"const":"abb"}`,
	`{"anyOf":[{"type":"integer","minimum":3},{"type":"string","maxLength":4}]}`, `{"oneOf":[{"type":"integer","maximum":6},{"type":"string"}]}`,
	`{"anyOf":[{"type":"integer","maximum":5},{"type":"boolean"},{"const":"abb"}]}`, `{"oneOf":[{"multipleOf":2,"type":"integer"},{"multipleOf":3,"type":"integer"}]}`,
	`{"not":{"const":5}}`, `{"not":{"type":"string"}}`, `{"not":{"enum":[1,2]}}`, `{"if":{"type":"integer"},"then":{"minimum":3}}`, `{"if":{"type":"integer"},"then":{"maximum":8},"else":{"type":"string"}}`,
	`{"allOf":[{"minimum":1},{"maximum":8}]}`, `{"$ref":"#/$defs/x"}`, `{"$ref":"#/$defs/y"}`,
}

const allOfDefs = `"$defs":{"x":{"type":"integer","minimum":3,"maximum":7},"y":{"allOf":[{"type":"object","properties":{"c":{"const":3}}},{"required":["c"]}]}}`

// values used to see whether a conjunction is satisfiable
var allOfWitnesses = func() []interface{} {
	var out []interface{}
	for _, s := range []string{`null`, `true`, `"a"`, `"abb"`, `"accc"`, `"zzzzzz"`, `""`, `1`, `2`, `3`, `4`, `5`, `6`, `7`, `8`, `9`, `12`, `30`, `-6`, `0`, `1.5`, `5.5`, `2.5`,
		`{}`, `{"a":1}`, `{"a":2,"b":true}`, `{"b":false}`, `{"c":3}`, `{"a":1,"c":3}`, `{"p1":1}`, `{"p1":1,"p2":1}`, `{"a":2,"p1":1}`, `{"x":1,"y":2}`, `{"a":1,"x":2}`, `{"b":true,"x":1}`, `{"c":3,"x":1,"a":1}`, `{"b":true,"c":3}`,
		`[]`, `[1]`, `[1,1]`, `[1,0]`, `[2,1]`, `[0,1,2]`, `[1,2]`, `[3,0,2]`, `[1,1,1]`} {
		out = append(out, mustDecode(s))
	}
	return out
}()

func witnessed(judge string) bool {
	va := newValidator(mustDecode(judge))
	for _, w := range allOfWitnesses {
		if va.check(w) == "" {
			return true
		}
	}
	return false
}

// mergeUnsupported reports conjunctions outside the supported language: contains
// next to closed tuples (see KF-C05-closed-contains).
func mergeUnsupported(branches ...string) bool {
	all := strings.Join(branches, " ")
	return strings.Contains(all, `"contains"`) && (strings.Contains(all, `"items":false`) || strings.Contains(all, `"additionalItems":false`))
}

// impliedType is the type the library infers for keywords without a type.
func impliedType(branch string) string {
	if strings.Contains(branch, `"type"`) && !strings.Contains(branch, `"properties"`) && !strings.Contains(branch, `tems"`) {
		return ""
	}
	for _, k := range []struct{ kw, t string }{{`"required"`, "object"}, {`roperties"`, "object"}, {`tems"`, "array"}, {`"contains"`, "array"}, {`Length"`, "string"}, {`"pattern"`, "string"}, {`imum"`, "number"}, {`"multipleOf"`, "number"}} {
		if strings.Contains(branch, k.kw) {
			return k.t
		}
	}
	return ""
}

// acceptable reports whether the parser has to accept the conjunction: only keywords that the merge
// expresses exactly, and a value of the implied type exists.
func acceptable(schema string, branches ...string) bool {
	all := strings.Join(branches, " ")
	for _, k := range []string{`"anyOf"`, `"oneOf"`, `"if"`, `"not"`} {
		if strings.Contains(all, k) {
			return false
		}
	}
	if strings.Contains(all, `"pattern"`) && strings.Contains(all, `Length"`) {
		return false // documented as unsupported
	}
	if strings.Count(all, `"contains"`) > 1 {
		return false // merged into one stricter contains
	}
	if strings.Contains(all, `"additionalProperties":false`) && strings.Contains(all, `"additionalProperties":{`) {
		return false // optional properties that can not be present any more are reported
	}
	judge := `{"allOf":[` + schema
	for _, b := range branches {
		if t := impliedType(b); t != "" {
			judge += `,{"type":"` + t + `"}`
		}
	}
	return witnessed(judge + `]}`)
}

func withDefs(s string) string {
	if strings.Contains(s, "$ref") {
		return s[:len(s)-1] + "," + allOfDefs + "}"
	}
	return s
}

// allOfGrids lists schemas of one type each that differ in the values of few keywords.
func allOfGrids() [][]string {
	grid := func(typ string, keywords ...[]string) []string {
		out := []string{`{"type":"` + typ + `"`}
		for _, values := range keywords {
			var next []string
			for _, o := range out {
				for _, v := range values {
					if v != "" {
						v = "," + v
					}
					next = append(next, o+v)
				}
			}
			out = next
		}
		for i := range out {
			out[i] += "}"
		}
		return out
	}
	I := `{"type":"integer","minimum":1,"maximum":2}`
	return [][]string{
		grid("object", []string{"", `"properties":{"a":` + I + `}`, `"properties":{"a":{"maximum":1},"b":{"type":"integer"}}`}, []string{"", `"additionalProperties":false`, `"additionalProperties":{"type":"integer","maximum":5,"minimum":0}`, `"additionalProperties":{"minimum":1}`}, []string{"", `"patternProperties":{"^p[0-9]$":` + I + `}`}, []string{"", `"minProperties":1`}),
		grid("object", []string{"", `"required":["a"]`, `"required":["a","b"]`, `"required":["c"]`}, []string{"", `"minProperties":2`, `"minProperties":1,"maxProperties":3`, `"maxProperties":2`}, []string{"", `"properties":{"a":{"const":1},"c":{"const":3}}`}),
		grid("array", []string{"", `"items":` + I, `"items":{"maximum":1,"minimum":0}`, `"items":false`}, []string{"", `"prefixItems":[{"type":"integer","minimum":0,"maximum":2}]`, `"prefixItems":[{},{"minimum":1}]`}, []string{"", `"minItems":1,"maxItems":3`}),
		grid("array", []string{"", `"minItems":1`, `"minItems":2,"maxItems":4`, `"maxItems":3`}, []string{"", `"uniqueItems":true`}, []string{"", `"contains":{"const":1}`, `"contains":{"type":"integer","minimum":0,"maximum":1},"minContains":2`}, []string{`"items":{"type":"integer","minimum":0,"maximum":4}`, ``}),
		grid("integer", []string{"", `"minimum":2`, `"exclusiveMinimum":2`, `"minimum":-3,"exclusiveMinimum":0`}, []string{"", `"maximum":8`, `"exclusiveMaximum":8`, `"maximum":5`}, []string{"", `"multipleOf":2`, `"multipleOf":4`, `"multipleOf":3`}),
		grid("number", []string{"", `"minimum":1.5`, `"exclusiveMinimum":1.5`}, []string{"", `"maximum":8`, `"exclusiveMaximum":3`}, []string{"", `"multipleOf":0.5`, `"multipleOf":0.75`, `"multipleOf":2`}),
		grid("string", []string{"", `"minLength":1`, `"minLength":3`}, []string{"", `"maxLength":4`, `"maxLength":3`}, []string{"", `"pattern":"^[ab]{1,4}$"`, `"enum":["a","ab","abb","abba"]`, `"const":"abb"`}),
	}
}

func plainContradictions() [][2]string {
	types := []string{"object", "array", "number", "string", "boolean", "null", "integer"}
	var out [][2]string
	for _, a := range types {
		for _, b := range types {
			if a == b || (a == "number" && b == "integer") || (a == "integer" && b == "number") {
				continue
			}
			out = append(out, [2]string{`{"type":"` + a + `"}`, `{"type":"` + b + `"}`})
			out = append(out, [2]string{`{"properties":{"a":{"type":"` + a + `"}},"required":["a"]}`, `{"properties":{"a":{"type":"` + b + `"}}}`})
			out = append(out, [2]string{`{"items":{"type":"` + a + `"},"minItems":1}`, `{"items":{"type":"` + b + `"}}`})
		}
	}
	for _, p := range [][2]string{
		{`{"type":"integer","minimum":5}`, `{"maximum":4}`}, {`{"type":"number","exclusiveMinimum":4}`, `{"type":"number","maximum":4}`}, {`{"type":"string","minLength":5}`, `{"maxLength":4}`},
		{`{"type":"array","minItems":3}`, `{"maxItems":2}`}, {`{"type":"object","minProperties":3}`, `{"maxProperties":2}`},
		{`{"enum":[1,2]}`, `{"enum":[3,4]}`}, {`{"enum":["a"]}`, `{"const":"b"}`}, {`{"const":1}`, `{"const":2}`}, {`{"const":1}`, `{"type":"string"}`}, {`{"enum":["a","b"]}`, `{"type":"integer"}`}, {`{"enum":[1,2]}`, `{"minimum":3}`},
		{`{"type":"string","pattern":"^a+$"}`, `{"pattern":"^b+$"}`}, {`{"type":["string","null"]}`, `{"type":["integer","boolean"]}`},
		{`{"enum":[{"a":1}]}`, `{"required":["b"]}`}, {`{"type":"integer","minimum":1,"maximum":3}`, `{"multipleOf":5}`},
	} {
		out = append(out, p, [2]string{p[1], p[0]})
	}
	return out
}

func allOfCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	opts := genOpts{UniqueAttempts: 20, IfAttempts: 20, OneOfAttempts: 20}
	search := searchCfg{smallN: 6, fullCap: 200, devBound: 1, devCap: 60, maxPos: 40}
	if th {
		search.fullCap, search.devBound, search.devCap = 3000, 2, 1000
	}
	add := func(fam, s string, exp int, parts ...string) {
		if mergeUnsupported(parts...) {
			return
		}
		s = withDefs(s)
		c := scase{family: fam, schema: s, opts: opts, search: search, expect: exp}
		if exp == expAny && acceptable(s, parts...) {
			c.expect, c.fair = expParse, true
		}
		out = append(out, c)
	}
	isRef := func(s string) bool { return strings.HasPrefix(s, `{"$ref"`) }
	for _, a := range allOfBranches {
		add("allOf1", `{"allOf":[`+a+`]}`, expAny, a)
		for _, b := range allOfBranches {
			if a == b {
				continue
			}
			add("allOf", `{"allOf":[`+a+`,`+b+`]}`, expAny, a, b)
			if isRef(a) {
				continue // siblings of $ref are ignored (draft 7)
			}
			if !strings.HasPrefix(a, `{"allOf"`) {
				add("allOf-sibling", a[:len(a)-1]+`,"allOf":[`+b+`]}`, expAny, a, b)
			}
		}
	}
	// per type: every ordered pair of a grid of keyword values
	for _, grid := range allOfGrids() {
		for i, a := range grid {
			for j, b := range grid {
				if i == j {
					continue
				}
				add("allOf-grid", `{"allOf":[`+a+`,`+b+`]}`, expAny, a, b)
				if th || (i+j)%4 == 0 {
					add("allOf-grid", a[:len(a)-1]+`,"allOf":[`+b+`]}`, expAny, a, b)
				}
				if th && (i+j)%5 == 0 {
					c := grid[(i+j+3)%len(grid)]
					add("allOf-grid", `{"allOf":[`+a+`,`+b+`,`+c+`]}`, expAny, a, b, c)
				}
			}
		}
	}
	for i, a := range allOfBranches {
		for j := i + 1; j < len(allOfBranches); j++ {
			for k := j + 1; k < len(allOfBranches); k++ {
				b, c := allOfBranches[j], allOfBranches[k]
				if !th && (i+3*j+5*k)%4 != 0 {
					continue
				}
				s := `{"allOf":[` + a + `,` + b + `,` + c + `]}`
				if !witnessed(withDefs(s)) {
					continue // pairs and triples without a common value are covered by the pairs
				}
				add("allOf3", s, expAny, a, b, c)
				add("allOf-nested", `{"allOf":[{"allOf":[`+a+`,`+b+`]},`+c+`]}`, expAny, a, b, c)
				if th {
					add("allOf-nested", `{"allOf":[`+a+`,{"allOf":[`+b+`,`+c+`]}]}`, expAny, a, b, c)
				}
			}
		}
	}
	for _, p := range plainContradictions() {
		add("allOf-contradiction", `{"allOf":[`+p[0]+`,`+p[1]+`]}`, expReject, p[0], p[1])
		add("allOf-contradiction", p[0][:len(p[0])-1]+`,"allOf":[`+p[1]+`]}`, expReject, p[0], p[1])
	}
	for _, s := range []string{`{"allOf":[{"type":"integer","minimum":2},{"maximum":3}]}`, `{"allOf":[{"properties":{"a":{"type":"integer","minimum":1}},"required":["a"]},{"properties":{"a":{"maximum":2}},"additionalProperties":false}]}`} {
		for _, w := range wrapSchemas(s) {
			add("allOf-context", w, expAny, s)
		}
	}
	return out
}

func init() {
	register(&property{
		id: "C08", level: "model_checking",
		rule: "one case per ordered pair of branches (as two branches, and as parent plus branch), per unordered triple (flat and nested; a quarter of them in the quick tier), per plainly contradicting pair and per schema context; non-trivial: a distinct generated value of a case",
		jobs: withMany("C08", func(tier string) []job { return caseJobs(allOfCases(tier), 20) }),
	})
}
