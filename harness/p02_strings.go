package main

import (
	"fmt"
	"strings"
)

// C02: string lengths and patterns. C03: formats.

func patternSpace(tier string) (single, multi []string) {
	atoms := []string{"a", "b", "0", " ", ".", `\.`, `\d`, `\w`, `\s`, `\D`, `\W`, `\S`, "[ab]", "[^ab]", "[a-c]", "[a-z0-9_]", "[0-9-]", "[.]", "[^.]", `[\.x]`, `[\d.]`, `[\w-]`, `\\`, `\$`, `\^`, `\+`, "/", "-", "é", "[à-ü]", `[^\s]`, `[]a]`, `\x41`}
	quants := []string{"", "?", "*", "+", "{0}", "{2}", "{0,1}", "{1,3}", "{2,}", "{0,}"}
	if tier == "thorough" {
		quants = append(quants, "{3}", "{5}", "{2,7}", "{1,}", "*?", "+?")
	}
	var units []string
	for _, a := range atoms {
		for _, q := range quants {
			units = append(units, a+q)
		}
	}
	for _, u := range units {
		single = append(single, u, "^"+u+"$")
	}
	groups := []string{"(a|b)", "(ab)", "(a|bc|)", "(?:ab|c)", "([ab]c)", "(a?b+)", "((a|b)c|d)", "(?P<n>ab)", "(.)", `(\.|x)`}
	for _, g := range groups {
		for _, q := range quants {
			multi = append(multi, g+q, "^"+g+q+"$", "^"+g+q+"x$", "^x"+g+q)
		}
	}
	second := []string{"a", "b+", `\d`, "[ab]?", ".", "(a|b)", "c{2}", `\.`}
	for _, u := range units {
		for _, v := range second {
			multi = append(multi, "^"+u+v+"$")
			if tier == "thorough" {
				multi = append(multi, "^"+v+u+"$", "^"+u+"|"+v+"$", "^("+u+v+"){1,2}$")
			}
		}
	}
	for _, u := range second {
		for _, v := range second {
			multi = append(multi, "^"+u+"|"+v+"$", "^("+u+"|"+v+")$", "^("+u+v+")+$", "^"+u+"-"+v+"-"+u+"$")
		}
	}
	multi = append(multi, "^[A-Z]{2}[0-9]{4}$", `^\d{3}-\d{2}-\d{4}$`, `^[a-z]+\.[a-z]{2,3}$`, `^(GET|POST|PUT)$`, `^\w+@\w+\.com$`, `^v\d+\.\d+\.\d+$`, `^#[0-9a-fA-F]{6}$`, `^$`, ``, `^(25[0-5]|2[0-4]\d)$`, `^[^.]+\.[^.]+$`, `^[-+]?\d*\.?\d+$`, "^S_", "_I$", "x.*y", `\\.`, `^\\.$`, `^[\[\]]$`, `[\]]`)
	// unusual classes, quoting, flags, long repetitions
	for _, u := range []string{`[\x00a]`, `[\x00-\x02]`, `[^\x01-\x{10FFFF}]`, `[\x{D7FF}-\x{E000}]`, `[^\x00-\x{D7FE}]`, `\Qa.b\E`, `\Q.\E.`, `\Q[\E.`, `\Q\.\E`, `[[:alpha:]]`, `[[:^alpha:]]`, `[^[:space:]]`, `(?i)aB`, `(?i)[a-c]é`, `(?i:k)S`, `(?s).`, `(?s:.a.)`, `(?m)^ab$`, `(?U)a+`, `a{10,12}`, `a{20,}`, `(ab){11}`, `[ab]{9,}`, `(a{2}){3}`, `(a*){2,3}`, `(a|b*){2}`, `(|a)+`, `[^\n]`, `[\x{80}-\x{10FFFF}]`, `[^a-z]{3}`, `\x{1F600}?`, `\0101`, `\x{10FFFF}`, `\A[ab]\z`, `(^a$)`, `(^|x)a(y|$)`, `(?:^a|^b)c`, `a|b|c|d|ef`, `a|ab|abc`, `(a(b(c(d)?)?)?)?`, `\t\n\r\f\v`, `[\t\n]`, `\"'`, `[^"\\]`} {
		single = append(single, u)
		if !strings.ContainsAny(u, "^$|") && !strings.Contains(u, `\A`) {
			multi = append(multi, "^"+u+"$", "^x(?:"+u+"){1,2}y$", "("+u+"|z)w")
		}
	}
	return
}

func strCase(fam, schema string, c searchCfg, expect int) scase {
	c.exec.openQuiet = true
	if c.exec.horizon == 0 {
		c.exec.horizon = 20000
	}
	if c.policies == nil {
		c.policies = []policy{polLow, polHigh, polRR1, polMix}
	}
	return scase{family: fam, schema: schema, search: c, expect: expect}
}

func stringCases(tier string) []scase {
	var out []scase
	single, multi := patternSpace(tier)
	th := tier == "thorough"
	capN, dev := 250, 120
	if th {
		capN, dev = 4000, 2000
	}
	for _, p := range single {
		out = append(out, strCase("pattern", js(map[string]interface{}{"type": "string", "pattern": p}), searchCfg{smallN: 128, fullCap: 2000, devCap: dev}, expParse))
	}
	for _, p := range multi {
		out = append(out, strCase("pattern", js(map[string]interface{}{"type": "string", "pattern": p}), searchCfg{smallN: 5, fullCap: capN, devCap: dev, devBound: 2}, expParse))
	}
	for i := 0; i < len(single); i += 7 {
		out = append(out, strCase("pattern-inferred", js(map[string]interface{}{"pattern": single[i]}), searchCfg{smallN: 4, fullCap: capN, devCap: dev}, expParse))
	}
	// lengths: every pair up to a bound, with the sentence generator under control
	lens := []int{0, 1, 2, 3, 5, 8, 13, 40, 41, 100, 300, 2500, 10000}
	if th {
		lens = append(lens, 4, 6, 7, 9, 20, 60, 150, 1000)
	}
	lc := searchCfg{smallN: 12, fullCap: 1, devBound: 1, devCap: 150, maxPos: 12, policies: []policy{polLow, polHigh, polRR1, polRR2, polMix}}
	lc.exec.horizon = 400000
	for _, t := range []string{`"type":"string",`, ``} {
		for _, a := range lens {
			out = append(out,
				strCase("length", fmt.Sprintf(`{%s"minLength":%d}`, t, a), lc, expParse),
				strCase("length", fmt.Sprintf(`{%s"maxLength":%d}`, t, a), lc, expParse))
			for _, b := range lens {
				e := expParse
				if a > b {
					e = expReject
				}
				out = append(out, strCase("length", fmt.Sprintf(`{%s"minLength":%d,"maxLength":%d}`, t, a, b), lc, e))
			}
		}
	}
	out = append(out,
		strCase("length", `{"type":"string","minLength":-1}`, lc, expReject),
		strCase("length", `{"type":"string","maxLength":-1}`, lc, expReject),
		strCase("length", `{"type":"string"}`, lc, expParse),
		strCase("pattern", `{"type":"string","pattern":"^["}`, lc, expReject),
		strCase("pattern", `{"type":"string","pattern":"("}`, lc, expReject),
		strCase("pattern", `{"type":"string","pattern":"[\\x{D800}-\\x{DFFF}]"}`, lc, expReject),
		strCase("pattern", `{"type":"string","pattern":"a","format":"uuid"}`, lc, expReject),
	)
	// containers: the constraint must survive nesting
	for _, s := range []string{`{"type":"string","pattern":"^[a-c]{2}\\.x$"}`, `{"type":"string","minLength":5,"maxLength":7}`, `{"type":"string","maxLength":3}`, `{"pattern":"^(ab|cd)+$"}`} {
		for _, w := range wrapSchemas(s) {
			c := strCase("string-nested", w, searchCfg{smallN: 4, fullCap: 1, devBound: 1, devCap: 200, maxPos: 30}, expParse)
			out = append(out, c)
		}
	}
	return out
}

// wrapSchemas places a schema in every supported kind of context.
func wrapSchemas(s string) []string {
	return []string{
		`{"type":"object","properties":{"a":` + s + `},"required":["a"]}`,
		`{"type":"object","patternProperties":{"^p[0-9]$":` + s + `},"minProperties":1,"additionalProperties":false}`,
		`{"type":"object","additionalProperties":` + s + `,"minProperties":1}`,
		`{"type":"array","items":` + s + `,"minItems":2,"maxItems":2}`,
		`{"type":"array","prefixItems":[` + s + `],"items":false}`,
		`{"type":"array","contains":` + s + `,"items":` + s + `,"minItems":1,"maxItems":2}`,
		`{"$ref":"#/$defs/x","$defs":{"x":` + s + `}}`,
		`{"$ref":"#/definitions/x","definitions":{"x":` + s + `}}`,
		`{"allOf":[` + s + `]}`,
		`{"anyOf":[` + s + `]}`,
		`{"oneOf":[` + s + `]}`,
		`{"anyOf":[` + s + `,{"const":17.5}]}`,
		`{"oneOf":[{"type":"object","properties":{"k":{"const":1},"v":` + s + `},"required":["k","v"]},{"type":"object","properties":{"k":{"const":2}},"required":["k"]}]}`,
		`{"if":{"type":"boolean"},"else":` + s + `}`,
		`{"type":"object","properties":{"n":{"type":"object","properties":{"a":` + s + `},"required":["a"]}},"required":["n"]}`,
		`{"type":"array","items":{"type":"array","items":` + s + `,"minItems":1,"maxItems":1},"minItems":1,"maxItems":1}`,
		`{"type":"object","properties":{"a":{"$ref":"#/$defs/x"},"b":{"$ref":"#/$defs/x"}},"required":["a","b"],"$defs":{"x":` + s + `}}`,
	}
}

func formatCases(tier string) []scase {
	var out []scase
	th := tier == "thorough"
	c := searchCfg{smallN: 100, fullCap: 1, devBound: 1, devCap: 3000, policies: []policy{polLow, polHigh, polRR1, polRR2, polMid, polMix, polMix2, polMix3}}
	if th {
		c.devBound, c.devCap = 2, 60000
	}
	formats := []string{"date-time", "date", "time", "duration", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uuid", "uri", "uri-reference", "iri", "iri-reference"}
	for _, f := range formats {
		s := `{"type":"string","format":"` + f + `"}`
		out = append(out, strCase("format", s, c, expParse), strCase("format", `{"format":"`+f+`"}`, c, expParse))
		small := c
		small.devCap = 120
		for _, w := range wrapSchemas(s) {
			out = append(out, strCase("format-nested", w, small, expParse))
		}
	}
	// formats outside the supported list still produce a string
	for _, f := range []string{"uri-template", "json-pointer", "relative-json-pointer", "regex", "made-up"} {
		k := strCase("format-unsupported", `{"type":"string","format":"`+f+`"}`, c, expParse)
		k.judge = `{"type":"string"}`
		out = append(out, k)
	}
	return out
}

func init() {
	register(&property{
		id: "C02", level: "model_checking",
		rule:  "one case per pattern of a bounded regular-expression grammar (33 atoms x 10 quantifiers, groups, alternations, two-unit concatenations) and per minLength/maxLength pair; all random draws of the pattern and sentence generators are choice points; an outcome is non-trivial when it is a distinct generated string of a case",
		jobs:  withMany("C02", func(tier string) []job { return caseJobs(stringCases(tier), 20) }),
		notes: []string{"pattern semantics: Go regexp (unanchored search); word-boundary assertions and Unicode classes are outside the grammar"},
	})
	register(&property{
		id: "C03", level: "model_checking",
		rule:  "one case per supported format and schema context; every draw of the value generators is a choice point, explored around 8 base schedules up to the deviation bound; non-trivial: a distinct generated value of a case",
		jobs:  func(tier string) []job { return caseJobs(formatCases(tier), 2) },
		notes: []string{"large draws (dates, bytes, word lists) are explored at boundary and midpoint alternatives", strings.Join([]string{"format grammars follow the RFCs named by JSON Schema"}, "")},
	})
}
