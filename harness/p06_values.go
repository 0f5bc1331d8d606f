package main

import (
	"fmt"
	"strings"
)

// C06: enum and const. C07: types.

func enumCases(tier string) []scase {
	th := tier == "thorough"
	pool := []string{`null`, `true`, `false`, `0`, `1`, `-3`, `1.5`, `"a"`, `"b"`, `""`, `"1"`, `[]`, `[1,"x"]`, `{}`, `{"a":1}`, `{"a":null,"b":[{}]}`}
	sib := []string{
		``, `"type":"string"`, `"type":"integer"`, `"type":"number"`, `"type":"boolean"`, `"type":"null"`, `"type":"array"`, `"type":"object"`,
		`"type":["string","null"]`, `"type":["integer","array"]`, `"minimum":1`, `"exclusiveMaximum":1`, `"multipleOf":1`, `"maxLength":0`, `"minLength":1`, `"pattern":"^a"`,
		`"required":["a"]`, `"maxProperties":0`, `"minItems":1`, `"maxItems":0`, `"properties":{"a":{"type":"integer"}}`, `"items":{"type":"integer"}`,
	}
	var lists [][]string
	for _, a := range pool {
		lists = append(lists, []string{a})
	}
	for i, a := range pool {
		for j, b := range pool {
			if i < j || (th && i != j) {
				lists = append(lists, []string{a, b})
			}
		}
	}
	for i := 0; i+2 < len(pool); i++ {
		for j := i + 1; j+1 < len(pool); j += 2 {
			lists = append(lists, []string{pool[i], pool[j], pool[j+1]})
		}
	}
	lists = append(lists, pool)
	var out []scase
	add := func(fam, schema, judge string, members []string) {
		c := scase{family: fam, schema: schema, judge: judge, strict: true, search: searchCfg{smallN: 32, fullCap: 400}}
		va := newValidator(mustDecode(judge))
		n := 0
		for _, m := range members {
			v := mustDecode(m)
			if va.check(v) != "" {
				continue
			}
			n++
			want := v
			c.reach = append(c.reach, reach{"member " + m, func(x interface{}, raw string) bool { return jsonEqual(x, want) }})
		}
		if n == 0 {
			c.expect = expReject
			c.reach = nil
		} else {
			c.expect, c.fair = expParse, true
		}
		out = append(out, c)
	}
	for li, l := range lists {
		for si, s := range sib {
			if !th && len(l) == 2 && si > 0 && (li+si)%5 != 0 {
				continue
			}
			parts := []string{`"enum":[` + strings.Join(l, ",") + `]`}
			if s != "" {
				parts = append(parts, s)
			}
			t := "{" + strings.Join(parts, ",") + "}"
			add("enum", t, t, l)
			if len(l) == 1 {
				k := `{"const":` + l[0]
				if s != "" {
					k += "," + s
				}
				add("const", k+"}", k+"}", l)
			}
		}
	}
	// enum together with const
	for _, a := range []string{`1`, `"a"`, `null`, `{"a":1}`} {
		for _, l := range [][]string{{`1`, `"a"`}, {`null`, `{"a":1}`}, {`2`, `3`}} {
			t := `{"enum":[` + strings.Join(l, ",") + `],"const":` + a + `}`
			add("enum+const", t, t, l)
		}
	}
	// numbers with the same value but another spelling, and long ones
	for _, l := range [][]string{{`1.0`, `2`}, {`1e2`, `-0.5`}, {`0.1`, `0.30000000000000004`}, {`9007199254740991`, `-9007199254740991`}, {`1e-7`, `1e21`}} {
		t := `{"enum":[` + strings.Join(l, ",") + `]}`
		add("enum-number", t, t, l)
		t = `{"const":` + l[0] + `}`
		add("const-number", t, t, l[:1])
	}
	// every context
	for _, s := range []string{`{"enum":["a",1,null]}`, `{"const":{"k":[1,{"z":null}]}}`, `{"const":null}`, `{"enum":[1,"a",true],"type":"string"}`} {
		for _, w := range wrapSchemas(s) {
			c := scase{family: "enum-nested", schema: w, expect: expParse, fair: true, search: searchCfg{smallN: 6, fullCap: 300, devBound: 1, devCap: 200}}
			out = append(out, c)
		}
	}
	return out
}

func typeCases(tier string) []scase {
	th := tier == "thorough"
	types := []string{"object", "array", "number", "integer", "string", "boolean", "null"}
	kws := map[string][]string{
		"object":  {``, `"required":["a"],"properties":{"a":{"const":1}}`, `"minProperties":2`},
		"array":   {``, `"minItems":1,"items":{"const":2}`, `"maxItems":2`},
		"number":  {``, `"minimum":2,"maximum":3`},
		"integer": {``, `"minimum":2,"maximum":3`, `"multipleOf":5`},
		"string":  {``, `"minLength":2,"maxLength":3`, `"pattern":"^[ab]c$"`},
		"boolean": {``},
		"null":    {``},
	}
	isType := func(t string) func(v interface{}, raw string) bool {
		va := newValidator(mustDecode(`{"type":"` + t + `"}`))
		return func(v interface{}, raw string) bool { return va.check(v) == "" }
	}
	notInt := isType("integer")
	fraction := func(v interface{}, raw string) bool { return isType("number")(v, raw) && !notInt(v, raw) }
	var out []scase
	add := func(fam, s string, exp int, ts []string) {
		c := scase{family: fam, schema: s, expect: exp, search: searchCfg{smallN: 8, fullCap: 300, devBound: 1, devCap: 150}}
		if th {
			c.search.fullCap, c.search.devBound, c.search.devCap = 4000, 2, 1500
		}
		if exp == expParse {
			c.fair, c.strict = true, true
			for _, t := range ts {
				c.reach = append(c.reach, reach{"type " + t, isType(t)})
				if t == "number" && len(ts) > 1 && !strings.Contains(s, "multipleOf") {
					c.reach = append(c.reach, reach{"a fraction", fraction})
				}
			}
		}
		out = append(out, c)
	}
	join := func(ts []string, kw ...string) string {
		q := make([]string, len(ts))
		for i, t := range ts {
			q[i] = `"` + t + `"`
		}
		s := `{"type":[` + strings.Join(q, ",") + `]`
		for _, k := range kw {
			if k != "" {
				s += "," + k
			}
		}
		return s + "}"
	}
	for _, t := range types {
		add("type-list", join([]string{t}), expParse, []string{t})
		for _, other := range types {
			for _, k := range kws[other] {
				if k == "" && other != t {
					continue
				}
				s := `{"type":"` + t + `"`
				if k != "" {
					s += "," + k
				}
				add("type", s+"}", expParse, []string{t})
			}
		}
		for _, u := range types {
			if t == u {
				continue
			}
			for _, k := range kws[t] {
				for _, l := range kws[u] {
					if k != "" && l != "" && strings.Split(k, ":")[0] == strings.Split(l, ":")[0] {
						continue
					}
					if strings.Contains(k+l, "multipleOf") && strings.Contains(k+l, "minimum") {
						continue // nothing numeric between 2 and 3
					}
					add("type-list", join([]string{t, u}, k, l), expParse, []string{t, u})
				}
			}
			for _, w := range types {
				if w != t && w != u && (th || (t < u && u < w)) {
					add("type-list", join([]string{t, u, w}), expParse, []string{t, u, w})
				}
			}
		}
	}
	add("type-list", join(types), expParse, types)
	// a listed type that cannot be satisfied leaves the others; none left is an error
	for _, bad := range []struct{ t, k string }{{"integer", `"minimum":5,"maximum":1`}, {"string", `"minLength":5,"maxLength":1`}, {"array", `"minItems":5,"maxItems":1`}, {"object", `"minProperties":5,"maxProperties":1`}} {
		for _, t := range types {
			if t == bad.t || (bad.t == "integer" && t == "number") {
				continue
			}
			add("type-list-partial", join([]string{t, bad.t}, bad.k), expAny, []string{t})
			add("type-list-partial", join([]string{bad.t, t}, bad.k), expAny, []string{t})
		}
		add("type-list-partial", join([]string{bad.t}, bad.k), expReject, nil)
	}
	// no type: inferred from the keywords, anything without them
	add("type-inferred", `{}`, expParse, types)
	add("type-inferred", `{"description":"x","title":"y"}`, expParse, types)
	for _, t := range types {
		for _, k := range kws[t] {
			if k != "" {
				add("type-inferred", "{"+k+"}", expParse, nil)
			}
			for _, u := range types {
				for _, l := range kws[u] {
					if k != "" && l != "" && t < u && strings.Split(k, ":")[0] != strings.Split(l, ":")[0] {
						if !(strings.Contains(k+l, "multipleOf") && strings.Contains(k+l, "minimum")) {
							add("type-inferred", "{"+k+","+l+"}", expParse, nil)
						}
					}
				}
			}
		}
	}
	for _, k := range []string{`"properties":{"a":{"const":1}}`, `"patternProperties":{"^p[0-9]$":{"const":1}}`, `"maxProperties":1`, `"additionalProperties":{"const":1}`,
		`"format":"ipv4"`, `"maxLength":2`, `"exclusiveMinimum":1`, `"exclusiveMaximum":1`, `"maximum":-5`, `"items":{"const":1}`, `"items":[{"const":1}]`, `"prefixItems":[{"const":1}]`,
		`"contains":{"const":1}`, `"maxItems":1`, `"uniqueItems":true`, `"additionalItems":false`, `"unevaluatedItems":false`, `"items":false`, `"additionalProperties":false`} {
		add("type-inferred", "{"+k+"}", expParse, nil)
	}
	// without a type, keywords about one type yield that type, alone, in pairs and next to
	// annotations, also where the schema stands inside another
	about := map[string][]string{
		"object": {`"properties":{"a":{"const":1}}`, `"patternProperties":{"^p[0-9]$":{"const":1}}`, `"minProperties":1`, `"maxProperties":2`, `"required":["a"]`, `"additionalProperties":{"const":1}`},
		"string": {`"pattern":"^[ab]$"`, `"format":"ipv4"`, `"minLength":2`, `"maxLength":3`},
		"number": {`"minimum":2`, `"maximum":3`, `"exclusiveMinimum":1`, `"exclusiveMaximum":4`, `"multipleOf":2`},
		"array":  {`"items":{"const":1}`, `"items":[{"const":1}]`, `"prefixItems":[{"const":1}]`, `"contains":{"const":1}`, `"minItems":1`, `"maxItems":2`, `"minContains":1`, `"maxContains":2`, `"unevaluatedItems":{"const":1}`, `"additionalItems":{"const":1}`},
	}
	only := func(t string) func(v interface{}, raw string) string {
		is := isType(t)
		return func(v interface{}, raw string) string {
			if !is(v, raw) {
				return "the keywords are about type " + t + ", the value is another"
			}
			return ""
		}
	}
	for _, t := range []string{"object", "string", "number", "array"} {
		for i, k := range about[t] {
			for _, a := range []string{"", `,"description":"x"`, `,"$defs":{"q":{"type":"null"}}`} {
				add("type-inferred-kind", "{"+k+a+"}", expParse, nil)
				out[len(out)-1].extra = only(t)
			}
			for _, l := range about[t][i+1:] {
				if strings.Split(k, ":")[0] == strings.Split(l, ":")[0] || strings.Contains(k+l, "format") || strings.Contains(k, "pattern\"") {
					continue
				}
				add("type-inferred-kind", "{"+k+","+l+"}", expParse, nil)
				out[len(out)-1].extra = only(t)
			}
			holder := func(v interface{}, raw string) string {
				o, _ := v.(map[string]interface{})
				return only(t)(o["h"], raw)
			}
			add("type-inferred-kind", `{"type":"object","properties":{"h":{`+k+`}},"required":["h"]}`, expParse, nil)
			out[len(out)-1].extra = holder
			add("type-inferred-kind", `{"type":"object","properties":{"h":{"$ref":"#/$defs/d"}},"required":["h"],"$defs":{"d":{`+k+`}}}`, expParse, nil)
			out[len(out)-1].extra = holder
			add("type-inferred-kind", `{"anyOf":[{`+k+`}]}`, expParse, nil)
			out[len(out)-1].extra = only(t)
			add("type-inferred-kind", `{"allOf":[{`+k+`}]}`, expParse, nil)
			out[len(out)-1].extra = only(t)
		}
	}
	for _, b := range []string{`"strin"`, `"any"`, `[]`, `["int"]`} {
		add("type-unknown", `{"type":`+b+`}`, expReject, nil)
	}
	for _, s := range []string{`{"type":"boolean"}`, `{"type":"null"}`, `{"type":["null","string"],"maxLength":2}`, `{"type":["boolean","integer"],"minimum":1,"maximum":2}`} {
		for _, w := range wrapSchemas(s) {
			if strings.Contains(w, `"if":{"type":"boolean"}`) && strings.Contains(s, "boolean") {
				continue // contradictory
			}
			add("type-nested", w, expParse, nil)
		}
	}
	return out
}

func init() {
	register(&property{
		id: "C06", level: "model_checking",
		rule:  "one case per enum list (1 to 3 members and the whole pool of 16 values of every JSON type) or const with one sibling keyword, and per schema context; the draw of the member is enumerated completely; non-trivial: a distinct generated value of a case",
		jobs:  withMany("C06", func(tier string) []job { return caseJobs(enumCases(tier), 40) }),
		notes: []string{"numbers in enum/const are those a float64 holds exactly (the library decodes schemas into float64)"},
	})
	register(&property{
		id: "C07", level: "model_checking",
		rule: "one case per type, ordered type list (up to 3, all 7), keyword set and schema context; all draws are choice points; non-trivial: a distinct generated value of a case",
		jobs: func(tier string) []job { return caseJobs(typeCases(tier), 10) },
	})
	_ = fmt.Sprint
}
