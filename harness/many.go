package main

import (
	"fmt"
	"strings"
)

// Schemas with many parts of one kind (branches, negations, conditions, references, items).
// All of them are satisfiable and supported, and none of them needs luck to be satisfied.

func rep(n int, f func(i int) string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = f(i)
	}
	return strings.Join(l, ",")
}

func manyCases(prop, tier string) []scase {
	var out []scase
	sizes := []int{4, 9, 10, 11, 17, 33, 65}
	if tier == "thorough" {
		sizes = append(sizes, 2, 3, 5, 8, 16, 32, 64, 101, 129)
	}
	f := fmt.Sprintf
	for _, n := range sizes {
		n := n
		lucky := func(s string) {
			c := scase{family: "many", schema: s, expect: expParse, search: searchCfg{smallN: 3, fullCap: 40, devBound: 1, devCap: 30},
				opts: genOpts{MaxSteps: 100000, Cutoff: 1000000, RefDepth: n + 5, IfAttempts: 20, OneOfAttempts: 20, UniqueAttempts: 20}}
			out = append(out, c)
		}
		sure := func(s string) {
			lucky(s)
			out[len(out)-1].strict = true
		}
		consts := rep(n, func(i int) string { return f(`{"const":%d}`, i) })
		nums := rep(n, func(i int) string { return f("%d", i) })
		names := rep(n, func(i int) string { return f(`"k%d"`, i) })
		props := rep(n, func(i int) string { return f(`"k%d":{"const":%d}`, i, i) })
		switch prop {
		case "C02":
			lits := rep(n, func(i int) string { return f("w%d", i) })
			for _, p := range []string{
				f("^[ab]{%d}$", 5*n), f("^([a-c][0-9]){%d}$", 3*n), f("^x{%d,%d}$", n, 5*n), f("^(a|b{%d})+$", n), f("^%s$", strings.Repeat("[a-c]-", n)),
				f("^(%s)$", strings.ReplaceAll(lits, ",", "|")), f("^(%s){3}$", strings.ReplaceAll(lits, ",", "|")), f("^%s$", lits), lits,
				f("^%sa%s$", strings.Repeat("(", n), strings.Repeat(")?", n)), f("^%s[0-9]%s$", strings.Repeat("(", n), strings.Repeat(")", n)),
				// ranges one code point apart, and two
				f("^[%s]$", strings.ReplaceAll(rep(n, func(i int) string { return f(`\x{%x}`, 0x100+2*i) }), ",", "")),
				f("^[%s]{2}$", strings.ReplaceAll(rep(n, func(i int) string { return f(`\x{%x}-\x{%x}`, 0x100+5*i, 0x102+5*i) }), ",", "")),
				f("^[^%s]$", strings.ReplaceAll(rep(n, func(i int) string { return f(`\x{%x}`, 0x21+2*i) }), ",", "")),
			} {
				out = append(out, strCase("many", js(map[string]interface{}{"type": "string", "pattern": p}), searchCfg{smallN: 160, fullCap: 300, devBound: 1, devCap: 150, maxPos: 12}, expParse))
			}
			for i, pol := range []string{f("^[a-z]{%d}$", n), "^a+$"} {
				c := strCase("many", f(`{"type":"object","patternProperties":{%q:{"const":%d}},"additionalProperties":false,"minProperties":1}`, pol, i), searchCfg{smallN: 8, fullCap: 40, devBound: 1, devCap: 60, maxPos: 12}, expParse)
				out = append(out, c)
			}
		case "C06":
			member := func(i int) string {
				switch i % 4 {
				case 0:
					return f("%d", i)
				case 1:
					return f(`"m%d"`, i)
				case 2:
					return f(`[%d,"x"]`, i)
				}
				return f(`{"a":%d}`, i)
			}
			for _, s := range []string{"", `"type":["integer","object"]`, `"type":"string"`, f(`"maximum":%d,"maxItems":1`, n/2), f(`"not":{"enum":[%s]}`, member(n-1)), f(`"enum-2":[%s]`, member(0))} {
				s := strings.TrimSuffix(f(`{"enum":[%s],%s`, rep(n, member), s), ",") + "}"
				c := scase{family: "many", schema: s, expect: expParse, fair: true, strict: !strings.Contains(s, `"not"`), search: searchCfg{smallN: 160, fullCap: 400}}
				va := newValidator(mustDecode(s))
				for i := 0; i < n; i++ {
					want := mustDecode(member(i))
					if va.check(want) == "" {
						c.reach = append(c.reach, reach{"member " + member(i), func(x interface{}, raw string) bool { return jsonEqual(x, want) }})
					}
				}
				out = append(out, c)
			}
			sure(f(`{"const":[%s]}`, rep(n, member)))
			sure(f(`{"const":{%s}}`, rep(n, func(i int) string { return f(`"k%d":%s`, i, member(i)) })))
			deep := `null`
			for i := 0; i < n; i++ {
				deep = f([]string{`[%s]`, `{"d":%s}`, `[1,%s]`}[i%3], deep)
			}
			sure(f(`{"const":%s}`, deep))
			sure(f(`{"enum":[%s,1]}`, deep))
			sure(f(`{"const":%q}`, strings.Repeat("long ", n*20)))
		case "C05":
			for _, it := range []string{`{"type":"boolean"}`, `{"type":"integer","minimum":0,"maximum":2}`, `{"type":"array","items":{"type":"null"},"maxItems":1}`} {
				sure(f(`{"type":"array","items":%s,"minItems":%d}`, it, n))
				sure(f(`{"type":"array","items":%s,"minItems":%d,"maxItems":%d}`, it, n, n))
				sure(f(`{"type":"array","items":%s,"minItems":%d,"maxItems":%d}`, it, n-1, n+1))
				sure(f(`{"type":"array","items":%s,"maxItems":%d}`, it, n))
				sure(f(`{"type":"array","prefixItems":[%s],"items":%s,"minItems":%d}`, consts, it, n+2))
				sure(f(`{"type":"array","prefixItems":[%s],"items":%s,"maxItems":%d}`, consts, it, n))
				sure(f(`{"type":"array","items":[%s],"additionalItems":%s,"minItems":%d,"maxItems":%d}`, consts, it, n+1, n+1))
				sure(f(`{"type":"array","items":[%s],"additionalItems":false,"minItems":1}`, consts))
				sure(f(`{"type":"array","prefixItems":[%s],"unevaluatedItems":false,"minItems":%d}`, consts, n))
				sure(f(`{"type":"array","prefixItems":[%s],"unevaluatedItems":%s,"minItems":%d}`, consts, it, n+3))
			}
			sure(f(`{"type":"array","contains":{"const":1},"minContains":%d}`, n))
			sure(f(`{"type":"array","items":{"enum":[0,1]},"contains":{"const":1},"minContains":%d,"maxItems":%d}`, n, n+1))
			sure(f(`{"type":"array","items":{"const":0},"prefixItems":[%s],"maxItems":%d}`, consts, n+1))
			lucky(f(`{"type":"array","items":{"enum":[%s]},"uniqueItems":true,"minItems":%d}`, nums, n/2))
			lucky(f(`{"type":"array","items":{"type":"integer"},"uniqueItems":true,"minItems":%d}`, n))
			lucky(f(`{"type":"array","prefixItems":[%s],"items":{"type":"integer","minimum":0,"maximum":1000},"uniqueItems":true,"minItems":%d}`, consts, n+3))
			// many arrays: what one array needs is not taken from another
			sure(f(`{"type":"array","items":{"type":"array","items":{"type":"boolean"},"minItems":2,"maxItems":2},"minItems":%d,"maxItems":%d}`, n, n))
		case "C08":
			sure(f(`{"allOf":[%s]}`, rep(n, func(i int) string { return f(`{"properties":{"k%d":{"const":%d}},"required":["k%d"]}`, i, i, i) })))
			sure(f(`{"type":"object","properties":{%s},"additionalProperties":false,"allOf":[%s]}`, props, rep(n, func(i int) string { return f(`{"required":["k%d"]}`, i) })))
			sure(f(`{"type":"integer","allOf":[%s]}`, rep(n, func(i int) string { return f(`{"minimum":%d,"maximum":%d}`, i, 3*n-i) })))
			sure(f(`{"type":"integer","allOf":[%s]}`, rep(n, func(i int) string { return f(`{"minimum":%d,"maximum":%d}`, -i, n-i) })))
			sure(f(`{"allOf":[%s]}`, rep(n, func(i int) string {
				return f(`{"enum":[%s]}`, rep(n+1, func(j int) string { return f("%d", j+i) }))
			})))
			sure(f(`{"type":"array","items":{"type":"null"},"allOf":[%s]}`, rep(n, func(i int) string { return f(`{"minItems":%d,"maxItems":%d}`, i, 2*n-i) })))
			sure(f(`{"type":"string","allOf":[%s]}`, rep(n, func(i int) string { return f(`{"minLength":%d,"maxLength":%d}`, i, 2*n-i) })))
			sure(f(`{"allOf":[%s]}`, rep(n, func(i int) string { return f(`{"type":["integer","null"],"properties":{"k%d":{"const":1}}}`, i) })))
			s := `{"type":"integer"}`
			for i := 0; i < n && i < 20; i++ {
				s = f(`{"allOf":[%s],"minimum":%d,"maximum":%d}`, s, i, 3*n-i)
			}
			sure(s)
			sure(f(`{"allOf":[%s,{"properties":{%s},"required":[%s]}]}`, rep(n, func(i int) string {
				return f(`{"properties":{"k%d":{"type":"integer"},"k%d":{"minimum":%d}}}`, i, (i+1)%n, (i+1)%n)
			}), props, names))
		case "C09":
			sure(f(`{"anyOf":[%s]}`, consts))
			sure(f(`{"oneOf":[%s]}`, consts))
			sure(f(`{"type":"object","required":["k"],"anyOf":[%s]}`, rep(n, func(i int) string { return f(`{"properties":{"k":{"const":%d}}}`, i) })))
			sure(f(`{"type":"object","required":["k"],"oneOf":[%s]}`, rep(n, func(i int) string { return f(`{"properties":{"k":{"const":%d}}}`, i) })))
			sure(f(`{"oneOf":[%s]}`, rep(n, func(i int) string { return f(`{"type":"integer","minimum":%d,"maximum":%d}`, 3*i, 3*i+2) })))
			lucky(f(`{"oneOf":[%s]}`, rep(n, func(i int) string { return f(`{"type":"integer","minimum":%d,"maximum":%d}`, 3*i, 3*i+3) })))
			sure(f(`{"type":"array","items":{"oneOf":[%s]},"minItems":%d}`, consts, n))
			sure(f(`{"type":"object","properties":{%s},"required":[%s]}`, rep(n, func(i int) string { return f(`"k%d":{"anyOf":[{"const":%d},{"const":"a"}]}`, i, i) }), names))
		case "C10":
			lucky(f(`{"type":"integer","minimum":0,"maximum":%d,"allOf":[%s]}`, n+1, rep(n, func(i int) string { return f(`{"not":{"const":%d}}`, i) })))
			lucky(f(`{"type":"integer","minimum":0,"maximum":%d,"not":{"enum":[%s]}}`, n+1, nums))
			lucky(f(`{"enum":[%s,"last"],"not":{"enum":[%s]}}`, nums, nums))
			lucky(f(`{"enum":[%s,"last"],"allOf":[%s]}`, nums, rep(n, func(i int) string { return f(`{"not":{"const":%d}}`, i) })))
			lucky(f(`{"type":"object","properties":{%s},"allOf":[%s]}`, props, rep(n, func(i int) string { return f(`{"not":{"required":["k%d"]}}`, i) })))
			lucky(f(`{"type":"object","properties":{%s},"required":[%s],"not":{"properties":{"k0":{"const":1}},"required":["k0"]}}`, props, names))
			lucky(f(`{"type":"object","properties":{%s},"required":[%s],"not":{"properties":{"k%d":{"const":true}},"required":["k%d"]}}`, rep(n, func(i int) string { return f(`"k%d":{"type":"boolean"}`, i) }), names, n-1, n-1))
			lucky(f(`{"type":"array","items":{"type":"boolean"},"minItems":%d,"not":{"minItems":%d}}`, n, n+2))
			lucky(f(`{"type":"string","allOf":[%s]}`, rep(n, func(i int) string { return f(`{"not":{"pattern":"^%c"}}`, 'A'+i%26) })))
		case "C11":
			lucky(f(`{"type":"object","properties":{"k":{"enum":[%s]}},"required":["k"],"allOf":[%s]}`, nums, rep(n, func(i int) string {
				return f(`{"if":{"properties":{"k":{"const":%d}}},"then":{"properties":{"v":{"const":%d}},"required":["v"]}}`, i, i)
			})))
			lucky(f(`{"enum":[%s],"allOf":[%s]}`, nums, rep(n-1, func(i int) string { return f(`{"if":{"const":%d},"then":{"const":%d}}`, i, i+1) })))
			lucky(f(`{"type":"integer","minimum":0,"maximum":%d,"allOf":[%s]}`, n, rep(n, func(i int) string { return f(`{"if":{"minimum":%d},"then":{"minimum":0},"else":{"maximum":%d}}`, i, n) })))
			lucky(f(`{"type":"array","items":{"enum":[%s],"if":{"minimum":2},"then":{"multipleOf":2}},"minItems":%d}`, nums, n))
		case "C12":
			defs := rep(n, func(i int) string { return f(`"d%d":{"const":%d}`, i, i) })
			sure(f(`{"$defs":{%s},"type":"object","properties":{%s},"required":[%s],"additionalProperties":false}`, defs, rep(n, func(i int) string { return f(`"k%d":{"$ref":"#/$defs/d%d"}`, i, (i*3+1)%n) }), names))
			sure(f(`{"definitions":{%s},"type":"array","prefixItems":[%s],"minItems":%d}`, defs, rep(n, func(i int) string { return f(`{"$ref":"#/definitions/d%d"}`, n-1-i) }), n))
			sure(f(`{"$defs":{%s},"anyOf":[%s]}`, defs, rep(n, func(i int) string { return f(`{"$ref":"#/$defs/d%d"}`, i) })))
			sure(f(`{"$defs":{%s},"oneOf":[%s]}`, defs, rep(n, func(i int) string { return f(`{"$ref":"#/$defs/d%d"}`, i) })))
			sure(f(`{"$ref":"#/$defs/d0","$defs":{%s,"d%d":{"const":"end"}}}`, rep(n, func(i int) string { return f(`"d%d":{"$ref":"#/$defs/d%d"}`, i, i+1) }), n))
			for _, k := range []int{n - 1, n * 2 / 3} { // positions of more than one digit, too
				for _, kw := range []string{"anyOf", "oneOf", "prefixItems"} {
					sure(f(`{"type":"object","properties":{"a":{"%s":[%s]},"b":{"$ref":"#/properties/a/%s/%d"}},"required":["b"],"additionalProperties":false}`, kw, consts, kw, k))
				}
				sure(f(`{"type":"array","items":[%s,{"$ref":"#/items/%d"}],"additionalItems":{"$ref":"#/items/%d"},"minItems":%d}`, consts, k, k, n+3))
				sure(f(`{"$defs":{%s},"type":"object","properties":{"a":{"anyOf":[%s]},"b":{"$ref":"#/$defs/d%d"}},"required":["b"]}`, defs, consts, k))
			}
			sure(f(`{"type":"object","properties":{%s},"required":[%s]}`, rep(n, func(i int) string {
				if i == 0 {
					return `"k0":{"const":"first"}`
				}
				return f(`"k%d":{"$ref":"#/properties/k%d"}`, i, i/2)
			}), names))
			sure(f(`{"$defs":{%s,"d%d":{"type":"null"}},"$ref":"#/$defs/d0"}`, rep(n, func(i int) string {
				return f(`"d%d":{"type":"object","properties":{"n":{"$ref":"#/$defs/d%d"}},"required":["n"],"additionalProperties":false}`, i, i+1)
			}), n))
		}
	}
	return out
}

// withMany adds the jobs of manyCases to those of a property.
func withMany(prop string, jobs func(tier string) []job) func(tier string) []job {
	return func(tier string) []job { return append(jobs(tier), caseJobs(manyCases(prop, tier), 4)...) }
}
