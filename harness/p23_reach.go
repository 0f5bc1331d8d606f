package main

// C23: everything the schema allows for a choice can be generated.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// reachCase: the values of the universe that are valid have to be among the generated ones.
type reachCase struct {
	family   string
	schema   string
	universe []string
	at       string // where the choice is in an output (a JSON pointer)
	by       func(v interface{}) string
	open     bool // the choice is made by the regular expression generator
	small    uint64
	floats   uint64
	cap      int
	dev      int // deviations from the base schedules when the tree is larger than cap
	opts     optSet
}

func byValue(v interface{}) string  { return js(v) }
func byType(v interface{}) string   { return typeOf(v) }
func bySize(v interface{}) string   { return fmt.Sprint("size ", max(arrLen(v), objLen(v))) }
func byNumber(v interface{}) string { return ratOf(js(v)).RatString() }

func byKeys(v interface{}) string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return "not an object"
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func (rc *reachCase) run(c *jctx) {
	c.key = "reach " + rc.family + " " + rc.schema
	if len(rc.opts) > 0 {
		c.key += " | " + rc.opts.String()
	}
	by := rc.by
	if by == nil {
		by = byValue
	}
	p := parseQuiet(env{}, rc.schema, nil)
	if p.panicV != "" || p.errs != "" {
		if strings.HasSuffix(rc.family, "restricted") && p.panicV == "" {
			c.St.Rejected++ // an alternative that cannot be generated is reported, rightly
			return
		}
		c.report("rejected", p.panicV+p.errs, map[string]interface{}{"document": rc.schema})
		return
	}
	want := map[string]string{}
	va := newValidator(mustDecode(rc.schema))
	for _, u := range rc.universe {
		v := mustDecode(u)
		if rc.at == "" || !strings.HasPrefix(rc.at, "/") {
			if va.check(v) != "" {
				continue
			}
		}
		want[by(v)] = u
	}
	total := len(want)
	if total == 0 {
		return
	}
	cfg := searchCfg{smallN: max(rc.small, 24), fullCap: rc.cap, floatPts: rc.floats, exec: execCfg{openQuiet: rc.open}, policies: []policy{polRR1, polMix, polMix2, polHigh}}
	if cfg.fullCap == 0 {
		cfg.fullCap = 20000
	}
	if rc.dev > 0 {
		cfg.devBound, cfg.devCap = rc.dev, 20000
	}
	memo := map[string]bool{}
	st := search(env{}, cfg, func() interface{} { return p.gen.Generate(rc.opts.build()) }, func(o *outcome, _ policy, _ int) bool {
		b, err := json.Marshal(o.val)
		if err != nil || o.horizon || o.panicV != "" || memo[string(b)] {
			return true
		}
		memo[string(b)] = true
		v, err := decodeJSON(b)
		if err != nil {
			return true
		}
		if rc.at != "" {
			var ok bool
			if v, ok = pointer(v, rc.at); !ok {
				return true
			}
		}
		delete(want, by(v))
		return len(want) > 0
	})
	exhausted := st.Complete
	st.Complete = st.Complete || len(want) == 0
	c.addSearch(st, len(memo))
	c.extra("alternatives_required", total)
	c.extra("alternatives_reached", total-len(want))
	if len(want) == 0 {
		c.extra("cases_with_all_reached", 1)
		if len(c.St.Samples) == 0 {
			c.St.Samples = append(c.St.Samples, fmt.Sprintf("%s: all %d alternatives after %d executions", rc.schema, total, st.Executions))
		}
		return
	}
	var missing []string
	for k := range want {
		missing = append(missing, k)
	}
	sort.Strings(missing)
	what := "the complete enumeration"
	if !exhausted {
		what = fmt.Sprintf("%d executions", st.Executions)
		c.extra("cases_not_enumerated_completely", 1)
	}
	c.report("unreachable", fmt.Sprintf("%d of %d alternatives are not among the %d outputs of %s: %s", len(missing), total, len(memo), what, clip(strings.Join(missing, ", "), 400)),
		map[string]interface{}{"document": rc.schema, "missing": missing, "options": rc.opts})
}

// reachCtx puts a schema somewhere and tells where its value is in the output.
type reachCtx struct{ schema, at string }

var reachCtxs = []reachCtx{
	{`%s`, ""},
	{`{"type":"object","properties":{"a":%s},"required":["a"]}`, "/a"},
	{`{"type":"object","properties":{"a":%s}}`, "/a"},
	{`{"type":"array","items":%s,"minItems":1,"maxItems":1}`, "/0"},
	{`{"type":"array","items":%s,"minItems":2,"maxItems":2}`, "/1"},
	{`{"type":"array","prefixItems":[{"const":0},%s],"items":false}`, "/1"},
	{`{"type":"array","prefixItems":[{"const":0}],"items":%s,"minItems":2,"maxItems":2}`, "/1"},
	{`{"type":"array","items":[{"const":0}],"additionalItems":%s,"minItems":2,"maxItems":2}`, "/1"},
	{`{"type":"array","contains":%s,"minItems":1,"maxItems":1}`, "/0"},
	{`{"type":"array","items":%s,"uniqueItems":true,"minItems":1,"maxItems":1}`, "/0"},
	{`{"$ref":"#/$defs/x","$defs":{"x":%s}}`, ""},
	{`{"type":"object","properties":{"a":{"$ref":"#/$defs/x"}},"required":["a"],"$defs":{"x":%s}}`, "/a"},
	{`{"allOf":[%s]}`, ""},
	{`{"anyOf":[%s]}`, ""},
	{`{"oneOf":[%s]}`, ""},
	{`{"anyOf":[{"const":"other"},%s]}`, ""},
	{`{"oneOf":[{"const":"other"},%s]}`, ""},
	{`{"allOf":[{"anyOf":[%s]}]}`, ""},
	{`{"type":"object","patternProperties":{"^q$":%s},"additionalProperties":false,"minProperties":1}`, "/q"},
	{`{"type":"object","additionalProperties":%s,"required":["z"],"maxProperties":1}`, "/z"},
	{`{"type":"object","properties":{"n":{"type":"object","properties":{"a":%s},"required":["a"]}},"required":["n"]}`, "/n/a"},
	{`{"type":"object","oneOf":[{"properties":{"k":{"const":1},"v":%s},"required":["k","v"],"additionalProperties":false},{"properties":{"k":{"const":2}},"required":["k"],"additionalProperties":false}]}`, "/v"},
	{`{"type":"object","properties":{"k":{"enum":[1,2]}},"required":["k"],"if":{"properties":{"k":{"const":1}}},"then":{"properties":{"v":%s},"required":["v"]}}`, "/v"},
}

func subsetsOf(l []string) [][]string {
	out := [][]string{nil}
	for _, x := range l {
		for _, s := range out {
			out = append(out, append(append([]string{}, s...), x))
		}
	}
	return out
}

func tuples(l []string, n int) []string {
	out := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range out {
			for _, x := range l {
				if s == "" {
					next = append(next, x)
				} else {
					next = append(next, s+","+x)
				}
			}
		}
		out = next
	}
	for i := range out {
		out[i] = "[" + out[i] + "]"
	}
	return out
}

func words(alphabet string, n int) []string {
	level, out := []string{""}, []string{`""`}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range level {
			for _, ch := range alphabet {
				next = append(next, s+string(ch))
			}
		}
		level = next
		for _, s := range level {
			out = append(out, js(s))
		}
	}
	return out
}

func reachCases(th bool) []*reachCase {
	var out []*reachCase
	add := func(r reachCase) { out = append(out, &r) }
	pool := []string{`1`, `"a"`, `null`, `true`, `[2]`, `{"k":3}`, `-0.5`}

	// small choices in every place
	inner := []reachCase{
		{family: "enum", schema: `{"enum":[1,"a"]}`, universe: pool}, {family: "enum", schema: `{"enum":["a",null,true,[2],{"k":3}]}`, universe: pool},
		{family: "boolean", schema: `{"type":"boolean"}`, universe: []string{`true`, `false`}},
		{family: "types", schema: `{"type":["boolean","null","integer"]}`, universe: []string{`true`, `null`, `1`}, by: byType},
		{family: "anyOf", schema: `{"anyOf":[{"const":1},{"const":"a"},{"const":null}]}`, universe: pool},
		{family: "oneOf", schema: `{"oneOf":[{"const":1},{"const":"a"},{"const":null}]}`, universe: pool},
		{family: "oneOf", schema: `{"oneOf":[{"enum":[1,"a",null]},{"enum":["a",true]}]}`, universe: pool},
		{family: "anyOf", schema: `{"anyOf":[{"enum":[1,"a"]},{"enum":["a",true]}]}`, universe: pool},
		{family: "integer", schema: `{"type":"integer","minimum":1,"maximum":4}`, universe: []string{`1`, `2`, `3`, `4`}, by: byNumber, floats: 24},
		{family: "integer", schema: `{"type":"integer","minimum":-4,"maximum":4,"multipleOf":2}`, universe: []string{`-4`, `-2`, `0`, `2`, `4`}, by: byNumber},
		{family: "array length", schema: `{"type":"array","items":{"const":1},"minItems":1,"maxItems":3}`, universe: []string{`[1]`, `[1,1]`, `[1,1,1]`}},
		{family: "optional", schema: `{"type":"object","properties":{"x":{"const":1},"y":{"const":2}},"additionalProperties":false}`, universe: []string{`{}`, `{"x":1}`, `{"y":2}`, `{"x":1,"y":2}`}},
		{family: "not", schema: `{"enum":[1,"a",null],"not":{"const":"a"}}`, universe: pool},
		{family: "pattern", schema: `{"type":"string","pattern":"^(a|b)?c$"}`, universe: []string{`"c"`, `"ac"`, `"bc"`}, open: true},
	}
	for _, in := range inner {
		for _, ctx := range reachCtxs {
			r := in
			r.schema, r.at = fmt.Sprintf(ctx.schema, in.schema), ctx.at
			if r.at == "" {
				r.at = "" // judged by the whole schema
			} else {
				// judged by the inner schema: the universe is filtered here
				va := newValidator(mustDecode(in.schema))
				r.universe = nil
				for _, u := range in.universe {
					if va.check(mustDecode(u)) == "" {
						r.universe = append(r.universe, u)
					}
				}
			}
			r.cap = 60000
			r.family += " in context"
			add(r)
		}
	}

	// enumerations of all sizes
	for n := 1; n <= len(pool); n++ {
		for off := 0; off < len(pool); off++ {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, pool[(off+i)%len(pool)])
			}
			e := strings.Join(l, ",")
			add(reachCase{family: "enum", schema: `{"enum":[` + e + `]}`, universe: pool})
			if n > 1 {
				var b []string
				for _, x := range l {
					b = append(b, `{"const":`+x+`}`)
				}
				for _, k := range []string{"anyOf", "oneOf"} {
					add(reachCase{family: k, schema: `{"` + k + `":[` + strings.Join(b, ",") + `]}`, universe: pool})
					add(reachCase{family: k + " nested", schema: `{"` + k + `":[{"anyOf":[` + b[0] + `,` + b[1] + `]},{"oneOf":[` + strings.Join(b[1:], ",") + `]}]}`, universe: pool})
					if off < 3 {
						for _, sib := range []string{`"type":["string","null","number"]`, `"enum":[1,"a",null,true]`, `"not":{"const":1}`, `"type":["string","integer","boolean","array","object","null"],"not":{"type":"string"}`} {
							s := `{"` + k + `":[` + strings.Join(b, ",") + `],` + sib + `}`
							va := newValidator(mustDecode(s))
							any := false
							for _, u := range pool {
								any = any || va.check(mustDecode(u)) == ""
							}
							if any {
								add(reachCase{family: k + " restricted", schema: s, universe: pool})
							}
						}
					}
				}
			}
		}
	}
	// one of two enumerations, overlapping in every way; both of two
	for a := 1; a < 16; a++ {
		for b := 1; b < 16; b++ {
			e := func(m int) string {
				var l []string
				for i := 0; i < 4; i++ {
					if m>>i&1 == 1 {
						l = append(l, pool[i])
					}
				}
				return `{"enum":[` + strings.Join(l, ",") + `]}`
			}
			if a != b {
				add(reachCase{family: "oneOf overlap", schema: `{"oneOf":[` + e(a) + `,` + e(b) + `]}`, universe: pool, cap: 3000, opts: optSet{"MaximumOneOfAttempts": 2}})
			}
			add(reachCase{family: "anyOf overlap", schema: `{"anyOf":[` + e(a) + `,` + e(b) + `]}`, universe: pool})
			if a&b != 0 {
				add(reachCase{family: "allOf overlap", schema: `{"allOf":[` + e(a) + `,` + e(b) + `]}`, universe: pool})
			}
			if a&^b != 0 {
				add(reachCase{family: "not overlap", schema: strings.TrimSuffix(e(a), "}") + `,"not":` + e(b) + `}`, universe: pool})
			}
			if th || (a+b)%3 == 0 {
				// then: only what is in b as well, else: a
				if a&b != 0 && a&^b != 0 {
					add(reachCase{family: "condition", schema: strings.TrimSuffix(e(a), "}") + `,"if":` + e(b) + `,"then":{},"else":{}}`, universe: pool})
					add(reachCase{family: "condition", schema: strings.TrimSuffix(e(a), "}") + `,"if":` + e(b) + `,"then":{"enum":[` + strings.Join(pool, ",") + `]}}`, universe: pool})
				}
			}
		}
	}
	// unions of types
	types := []string{"object", "array", "integer", "string", "boolean", "null", "number"}
	typeVals := []string{`{}`, `[]`, `1`, `"a"`, `true`, `null`, `1.5`}
	for m := 1; m < 1<<len(types); m++ {
		var l, u []string
		for i, t := range types {
			if m>>i&1 == 1 {
				l = append(l, `"`+t+`"`)
				u = append(u, typeVals[i])
			}
		}
		if len(l) > 3 && !th && m%4 != 3 && m != 127 {
			continue
		}
		by := func(v interface{}) string {
			if t := byType(v); t != "integer" && t != "number" {
				return t
			}
			return "number"
		}
		add(reachCase{family: "types", schema: `{"type":[` + strings.Join(l, ",") + `]}`, universe: u, by: by, cap: 60000})
		var b []string
		for _, t := range l {
			b = append(b, `{"type":`+t+`}`)
		}
		add(reachCase{family: "types by anyOf", schema: `{"anyOf":[` + strings.Join(b, ",") + `]}`, universe: u, by: by, cap: 60000})
	}

	// optional properties: every subset
	nMax := 4
	if th {
		nMax = 5
	}
	names := []string{"a", "b", "c", "d", "e"}
	for n := 1; n <= nMax; n++ {
		var props, universe []string
		for i := 0; i < n; i++ {
			props = append(props, fmt.Sprintf(`"%s":{"const":%d}`, names[i], i))
		}
		for _, s := range subsetsOf(names[:n]) {
			var l []string
			for _, k := range s {
				l = append(l, fmt.Sprintf(`"%s":%d`, k, strings.Index("abcde", k)))
			}
			universe = append(universe, "{"+strings.Join(l, ",")+"}")
		}
		for _, req := range subsetsOf(names[:n]) {
			for lo := -1; lo <= n; lo++ {
				for hi := -1; hi <= n; hi++ {
					if hi >= 0 && (hi < lo || hi < len(req)) {
						continue
					}
					s := `{"type":"object","properties":{` + strings.Join(props, ",") + `},"additionalProperties":false`
					if len(req) > 0 {
						s += `,"required":["` + strings.Join(req, `","`) + `"]`
					}
					if lo >= 0 {
						s += fmt.Sprintf(`,"minProperties":%d`, lo)
					}
					if hi >= 0 {
						s += fmt.Sprintf(`,"maxProperties":%d`, hi)
					}
					s += "}"
					add(reachCase{family: "optional", schema: s, universe: universe, by: byKeys})
					if len(req) == 1 && lo < 0 {
						add(reachCase{family: "optional, open", schema: strings.Replace(s, `,"additionalProperties":false`, "", 1), universe: universe, by: byKeys})
						add(reachCase{family: "optional, merged", schema: `{"allOf":[` + s + `,{"type":"object"}]}`, universe: universe, by: byKeys})
					}
				}
			}
		}
	}
	// numbers of properties
	for lo := 0; lo <= 3; lo++ {
		for hi := max(lo, 1); hi <= 4; hi++ {
			var sizes []string
			var five []string
			for n := 0; n <= 4; n++ {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, fmt.Sprintf(`"%c":1`, 'a'+i))
				}
				sizes = append(sizes, "{"+strings.Join(l, ",")+"}")
				five = append(five, fmt.Sprintf(`"%c":{"const":1}`, 'a'+n))
			}
			b := fmt.Sprintf(`"minProperties":%d,"maxProperties":%d`, lo, hi)
			add(reachCase{family: "property count", schema: `{"type":"object","additionalProperties":{"const":1},` + b + `}`, universe: sizes, by: bySize})
			add(reachCase{family: "property count", schema: `{"type":"object","properties":{` + strings.Join(five, ",") + `},"additionalProperties":false,` + b + `}`, universe: sizes, by: bySize})
			add(reachCase{family: "property count", schema: `{"type":"object","patternProperties":{"^[a-e]$":{"const":1}},"additionalProperties":false,` + b + `}`, universe: sizes, by: bySize, open: true, cap: 60000, opts: optSet{"MaximumUniqueGeneratorAttempts": 1}})
			add(reachCase{family: "property count", schema: `{"type":"object","properties":{"a":{"const":1}},"additionalProperties":{"const":1},` + b + `}`, universe: sizes, by: bySize})
			add(reachCase{family: "property count", schema: `{"type":"object","properties":{"a":{"const":1}},"required":["a"],"additionalProperties":{"const":1},` + b + `}`, universe: sizes, by: bySize})
			if hi > 0 {
				add(reachCase{family: "property names", schema: `{"type":"object","patternProperties":{"^[ab]$":{"const":1},"^(cd|ef)$":{"const":2}},"additionalProperties":false,"minProperties":1,` + b[strings.Index(b, ",")+1:] + `}`,
					universe: []string{`{"a":1}`, `{"b":1}`, `{"cd":2}`, `{"ef":2}`}, open: true, cap: 60000, opts: optSet{"MaximumUniqueGeneratorAttempts": 1}})
			}
		}
	}

	// lengths of arrays
	for lo := -1; lo <= 4; lo++ {
		for hi := -1; hi <= 5; hi++ {
			if hi == 0 || hi >= 0 && hi < lo {
				continue
			}
			b := ""
			if lo >= 0 {
				b += fmt.Sprintf(`,"minItems":%d`, lo)
			}
			if hi >= 0 {
				b += fmt.Sprintf(`,"maxItems":%d`, hi)
			}
			lens := func(from, to int) []string {
				var l []string
				for n := from; n <= to; n++ {
					x := make([]string, n)
					for i := range x {
						x[i] = "1"
					}
					l = append(l, "["+strings.Join(x, ",")+"]")
				}
				return l
			}
			top := 5
			add(reachCase{family: "array length", schema: `{"type":"array","items":{"const":1}` + b + `}`, universe: lens(0, top), by: bySize})
			add(reachCase{family: "array length", schema: `{"type":"array"` + b + `}`, universe: lens(0, top), by: bySize})
			add(reachCase{family: "array length", schema: `{"allOf":[{"type":"array","items":{"const":1}},{"type":"array"` + b + `}]}`, universe: lens(0, top), by: bySize})
			if hi < 0 || hi >= 1 {
				add(reachCase{family: "array length", schema: `{"type":"array","items":{"const":1},"contains":{"const":1}` + b + `}`, universe: lens(1, top), by: bySize})
				add(reachCase{family: "array length", schema: `{"type":"array","prefixItems":[{"const":1}],"items":{"const":1}` + b + `}`, universe: lens(1, top), by: bySize})
			}
			if hi < 0 || hi >= 2 {
				add(reachCase{family: "array length", schema: `{"type":"array","items":{"const":1},"contains":{"const":1},"minContains":2` + b + `}`, universe: lens(2, top), by: bySize})
				add(reachCase{family: "array length", schema: `{"type":"array","prefixItems":[{"const":1},{"const":1}],"items":{"const":1}` + b + `}`, universe: lens(2, top), by: bySize})
				add(reachCase{family: "array length", schema: `{"type":"array","items":[{"const":1},{"const":1}],"additionalItems":{"const":1}` + b + `}`, universe: lens(2, top), by: bySize})
				add(reachCase{family: "array length", schema: `{"type":"array","prefixItems":[{"const":1}],"items":{"const":1},"contains":{"const":1}` + b + `}`, universe: lens(2, top), by: bySize})
			}
			if lo >= 0 && hi >= 0 && hi <= 3 {
				add(reachCase{family: "unique items", schema: `{"type":"array","items":{"enum":[1,2,3]},"uniqueItems":true` + b + `}`, universe: append(append(append(tuples([]string{"1", "2", "3"}, 0), tuples([]string{"1", "2", "3"}, 1)...), tuples([]string{"1", "2", "3"}, 2)...), tuples([]string{"1", "2", "3"}, 3)...), cap: 60000, opts: optSet{"MaximumUniqueGeneratorAttempts": 3}})
			}
			if hi >= 0 && hi <= 3 {
				add(reachCase{family: "items", schema: `{"type":"array","items":{"type":"boolean"}` + b + `}`, universe: append(append(append(tuples([]string{"true", "false"}, 0), tuples([]string{"true", "false"}, 1)...), tuples([]string{"true", "false"}, 2)...), tuples([]string{"true", "false"}, 3)...)})
			}
		}
	}
	for n := 1; n <= 3; n++ {
		e := `{"enum":[1,2,3]}`
		l := strings.TrimSuffix(strings.Repeat(e+",", n), ",")
		add(reachCase{family: "tuple", schema: `{"type":"array","prefixItems":[` + l + `],"items":false}`, universe: tuples([]string{"1", "2", "3"}, n)})
		add(reachCase{family: "tuple", schema: `{"type":"array","prefixItems":[` + l + `],"items":false,"uniqueItems":true}`, universe: tuples([]string{"1", "2", "3"}, n), cap: 60000, opts: optSet{"MaximumUniqueGeneratorAttempts": 3}})
		add(reachCase{family: "tuple", schema: `{"type":"array","items":[` + l + `],"additionalItems":false}`, universe: tuples([]string{"1", "2", "3"}, n)})
	}

	// small ranges of numbers
	for lo := -3; lo <= 3; lo++ {
		for w := 0; w <= 4; w++ {
			hi := lo + w
			var u []string
			for x := lo - 1; x <= hi+1; x++ {
				u = append(u, fmt.Sprint(x))
			}
			for _, kinds := range [][2]string{{"minimum", "maximum"}, {"exclusiveMinimum", "maximum"}, {"minimum", "exclusiveMaximum"}, {"exclusiveMinimum", "exclusiveMaximum"}} {
				first, last := lo, hi
				if kinds[0][0] == 'e' {
					first++
				}
				if kinds[1][0] == 'e' {
					last--
				}
				if first > last {
					continue
				}
				b := fmt.Sprintf(`"%s":%d,"%s":%d`, kinds[0], lo, kinds[1], hi)
				add(reachCase{family: "integer range", schema: `{"type":"integer",` + b + `}`, universe: u, by: byNumber, floats: 24})
				add(reachCase{family: "integer range", schema: `{"allOf":[{"type":"integer"},{` + b + `}]}`, universe: u, by: byNumber, floats: 24})
				for _, mo := range []int{1, 2, 3} {
					if (last/mo)*mo >= first && (last >= 0 || (last-mo+1)/mo*mo >= first) || first <= 0 && last >= 0 {
						add(reachCase{family: "multiples", schema: fmt.Sprintf(`{"type":"integer",%s,"multipleOf":%d}`, b, mo), universe: u, by: byNumber})
						add(reachCase{family: "multiples", schema: fmt.Sprintf(`{"type":"number",%s,"multipleOf":%d}`, b, mo), universe: u, by: byNumber})
					}
				}
				var q []string
				for x := 4 * lo; x <= 4*hi; x++ {
					q = append(q, fmt.Sprint(float64(x)/4))
				}
				add(reachCase{family: "multiples", schema: `{"type":"number",` + b + `,"multipleOf":0.25}`, universe: q, by: byNumber, small: 32})
			}
		}
	}
	for _, mo := range []int{1, 2, 5} {
		var u []string
		for x := 0; x <= 10*mo; x += mo {
			u = append(u, fmt.Sprint(x))
		}
		add(reachCase{family: "multiples", schema: fmt.Sprintf(`{"type":"integer","multipleOf":%d}`, mo), universe: u, by: byNumber, small: 128})
	}
	// default range
	var ten []string
	for x := 0; x <= 10; x++ {
		ten = append(ten, fmt.Sprint(x))
	}
	add(reachCase{family: "integer range", schema: `{"type":"integer"}`, universe: ten, by: byNumber, floats: 48})

	// strings of small regular languages
	for _, re := range []struct {
		p    string
		a    string
		n    int
		open bool
	}{{"^a$", "ab", 2, true}, {"^[ab]$", "abc", 2, true}, {"^[ab]{1,2}$", "ab", 3, true}, {"^a?b?$", "ab", 3, true}, {"^(a|b|cc)$", "abc", 2, true}, {"^a{0,3}$", "ab", 4, true}, {"^(ab|c){1,2}$", "abc", 4, true}, {"^[a-c][^a-y]$", "abcz", 2, true}, {"^(a|b?)(c|)$", "abc", 3, true}, {"^a*$", "ab", 10, true}, {"^b+$", "b", 10, true}, {"^(a|(b|c))$", "abc", 2, true}, {"^[abc]{2}$", "abc", 3, true}, {"^x(a{2}|b{1,2})y$", "abxy", 4, true}} {
		if re.n > 5 {
			var u []string
			for i := 0; i <= 10; i++ {
				u = append(u, js(strings.Repeat(re.a[:1], i)))
			}
			add(reachCase{family: "pattern", schema: `{"type":"string","pattern":` + js(re.p) + `}`, universe: u, open: true, small: 32})
			continue
		}
		u := words(re.a, re.n)
		if strings.Contains(re.p, "^a-y") {
			u = []string{`"az"`, `"bz"`, `"cz"`}
		}
		add(reachCase{family: "pattern", schema: `{"type":"string","pattern":` + js(re.p) + `}`, universe: u, open: true, small: 300})
		add(reachCase{family: "pattern", schema: `{"type":"object","patternProperties":{` + js(re.p) + `:{"const":1}},"additionalProperties":false,"minProperties":1,"maxProperties":1}`, universe: func() []string {
			var l []string
			for _, w := range u {
				l = append(l, `{`+w+`:1}`)
			}
			return l
		}(), open: true, small: 300})
	}

	// every repetition of a part makes its own choices, however many repetitions there may be
	for _, re := range []string{"^[ab]+$", "^[ab]*$", "^(a|b)+$", "^(a|b)*$", "^(ab|c)+$", "^[ab]+c$", "^(a?b)+$", "^[ab]{1,}$", "^([ab]c?)*$", "^x[ab]+x$", "^([ab]{2})+$", "^[ab]{0,}c{0,}$"} {
		u := words("abcx", 4)
		if !th {
			u = words("abcx", 3)
		}
		add(reachCase{family: "pattern of any length", schema: `{"type":"string","pattern":` + js(re) + `}`, universe: u, open: true, small: 24, cap: 60000})
		var l []string
		for _, w := range words("abcx", 3) {
			l = append(l, `{`+w+`:1}`)
		}
		add(reachCase{family: "pattern of any length", schema: `{"type":"object","patternProperties":{` + js(re) + `:{"const":1}},"additionalProperties":false,"minProperties":1,"maxProperties":1}`, universe: l, open: true, small: 24, cap: 60000})
	}

	// many alternatives: none of them may be cut off
	sizes := []int{8, 11, 13, 17, 33, 65, 101}
	if th {
		sizes = append(sizes, 9, 10, 12, 16, 20, 21, 26, 32, 51, 64, 100, 128, 129, 201, 257)
	}
	for _, n := range sizes {
		var vals, consts, props, words []string
		for i := 0; i < n; i++ {
			vals = append(vals, fmt.Sprint(i))
			consts = append(consts, fmt.Sprintf(`{"const":%d}`, i))
			props = append(props, fmt.Sprintf(`"p%d":{"const":%d}`, i, i))
			words = append(words, fmt.Sprintf("w%d", i))
		}
		enum := `{"enum":[` + strings.Join(vals, ",") + `]}`
		small := uint64(n + 1)
		add(reachCase{family: "many enum", schema: enum, universe: vals, small: small})
		add(reachCase{family: "many enum", schema: `{"type":"array","items":` + enum + `,"minItems":1,"maxItems":1}`, at: "/0", universe: vals, small: small})
		add(reachCase{family: "many enum", schema: `{"allOf":[` + enum + `,{"type":"integer"}]}`, universe: vals, small: small})
		for _, k := range []string{"anyOf", "oneOf"} {
			if k == "oneOf" && n > 33 && !th {
				continue
			}
			alt := `{"` + k + `":[` + strings.Join(consts, ",") + `]}`
			add(reachCase{family: "many " + k, schema: alt, universe: vals, small: small})
			add(reachCase{family: "many " + k, schema: `{"type":"object","properties":{"a":` + alt + `},"required":["a"]}`, at: "/a", universe: vals, small: small})
			add(reachCase{family: "many " + k, schema: `{"allOf":[` + alt + `]}`, universe: vals, small: small})
			add(reachCase{family: "many " + k, schema: `{"not":{"const":-1},"` + k + `":[` + strings.Join(consts, ",") + `]}`, universe: vals, small: small})
		}
		add(reachCase{family: "many integers", schema: fmt.Sprintf(`{"type":"integer","minimum":0,"maximum":%d}`, n-1), universe: vals, by: byNumber, floats: uint64(4 * n)})
		add(reachCase{family: "many multiples", schema: fmt.Sprintf(`{"type":"integer","minimum":0,"maximum":%d,"multipleOf":1}`, n-1), universe: vals, by: byNumber, small: small, floats: uint64(4 * n)})
		pat := "^(" + strings.Join(words, "|") + ")$"
		var ws, wo []string
		for _, w := range words {
			ws, wo = append(ws, js(w)), append(wo, `{"`+w+`":1}`)
		}
		add(reachCase{family: "many words", schema: `{"type":"string","pattern":` + js(pat) + `}`, universe: ws, open: true, small: small})
		add(reachCase{family: "many words", schema: `{"type":"object","patternProperties":{` + js(pat) + `:{"const":1}},"additionalProperties":false,"minProperties":1,"maxProperties":1}`, universe: wo, open: true, small: small})
		if n <= 40 {
			var pats []string
			for _, w := range words {
				pats = append(pats, `"^`+w+`$":{"const":1}`)
			}
			add(reachCase{family: "many patterns", schema: `{"type":"object","patternProperties":{` + strings.Join(pats, ",") + `},"additionalProperties":false,"minProperties":1,"maxProperties":1}`, universe: wo, open: true, small: small})
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				for _, extra := range []string{``, `,"maxProperties":1`, `,"required":["p2"],"maxProperties":3`} {
					for _, ctx := range []string{`%s`, `{"allOf":[%s,{"type":"object"}]}`} {
						s := fmt.Sprintf(ctx, `{"type":"object","properties":{`+strings.Join(props, ",")+`},"additionalProperties":false`+extra+`}`)
						add(reachCase{family: "many optional", schema: s, at: fmt.Sprintf("/p%d", i), universe: []string{fmt.Sprint(i)}, small: small, cap: 200, dev: 1})
					}
				}
			}
			var lens []string
			for k := 0; k <= n; k++ {
				lens = append(lens, "["+strings.TrimSuffix(strings.Repeat("1,", k), ",")+"]")
			}
			add(reachCase{family: "many items", schema: fmt.Sprintf(`{"type":"array","items":{"const":1},"maxItems":%d}`, n), universe: lens, by: bySize, small: small})
			var objs []string
			for k := 0; k <= n; k++ {
				objs = append(objs, "{"+strings.Join(props[:k], ",")+"}")
			}
			for i := range objs {
				m, l := mustDecode(objs[i]).(map[string]interface{}), []string{}
				for k := range m {
					l = append(l, `"`+k+`":1`)
				}
				objs[i] = "{" + strings.Join(l, ",") + "}"
			}
			add(reachCase{family: "many properties", schema: fmt.Sprintf(`{"type":"object","additionalProperties":{"const":1},"maxProperties":%d}`, n), universe: objs, by: bySize, small: small})
		}
	}

	// what a not leaves over
	ints := []string{"0", "1", "2", "3", "4", "5", "6"}
	for _, n := range []string{`{"const":3}`, `{"const":0}`, `{"const":6}`, `{"const":"x"}`, `{"enum":[1,2]}`, `{"enum":[0,6]}`, `{"enum":[0,1,2,4,5,6]}`, `{"minimum":4}`, `{"maximum":2}`, `{"exclusiveMinimum":4}`, `{"exclusiveMaximum":2}`,
		`{"multipleOf":2}`, `{"multipleOf":5}`, `{"type":"string"}`, `{"type":["string","null"]}`, `{"type":"string","minLength":1}`, `{"required":["a"]}`, `{"pattern":"x","type":"string"}`, `{"type":"integer","minimum":5}`, `{"not":{"minimum":2}}`} {
		for _, f := range []string{`{"type":"integer","minimum":0,"maximum":6,"not":%s}`, `{"allOf":[{"type":"integer","minimum":0},{"maximum":6,"not":%s}]}`, `{"enum":[0,1,2,3,4,5,6],"not":%s}`, `{"not":%s,"anyOf":[{"enum":[0,1,2]},{"enum":[3,4,5,6]}]}`, `{"not":%s,"oneOf":[{"enum":[0,1,2]},{"enum":[3,4,5,6]}]}`,
			`{"type":"integer","minimum":0,"maximum":6,"allOf":[{"not":%s},{"not":{"const":100}}]}`, `{"type":"integer","minimum":0,"maximum":6,"multipleOf":1,"not":%s}`} {
			fam := "negated"
			if strings.Contains(f, "Of") {
				fam += " restricted"
			}
			add(reachCase{family: fam, schema: fmt.Sprintf(f, n), universe: ints, by: byNumber, floats: 28, opts: optSet{"MaximumUniqueGeneratorAttempts": 2, "MaximumOneOfAttempts": 2}})
		}
	}
	for _, n := range []string{`{"type":"string"}`, `{"type":"null"}`, `{"type":["boolean","integer"]}`, `{"type":"string","minLength":3}`, `{"type":"string","maxLength":300}`, `{"type":"string","pattern":"^zz$"}`, `{"type":"integer","minimum":5000}`, `{"type":"array","minItems":3}`, `{"type":"array","maxItems":1}`, `{"type":"object","minProperties":30}`,
		`{"type":"object","required":["a"]}`, `{"type":"array","items":{"type":"string"}}`, `{"const":1}`, `{"const":true}`, `{"enum":[null,false]}`, `{"format":"ipv4","type":"string"}`, `{"type":"number","multipleOf":7}`, `{"type":"array","prefixItems":[{"const":1}]}`, `{"type":"object","properties":{"a":{"const":1}},"required":["a"]}`, `{"type":"object","maxProperties":0}`, `{"type":"integer","exclusiveMinimum":5000}`, `{"type":"integer","exclusiveMaximum":-5000}`, `{"type":"number","maximum":-5000}`} {
		for _, f := range []string{`{"type":["string","integer","boolean","null","array","object"],"not":%s}`, `{"type":["string","array"],"not":%s}`, `{"type":["object","null"],"not":%s}`, `{"not":%s}`, `{"allOf":[{"type":["string","integer","boolean","null","array","object"]},{"not":%s}]}`, `{"type":"object","properties":{"a":{"not":%s}},"required":["a"]}`} {
			at := ""
			if strings.Contains(f, `"a":{"not"`) {
				at = "/a"
			}
			by := func(v interface{}) string {
				if t := byType(v); t != "integer" && t != "number" {
					return t
				}
				return "number"
			}
			u := []string{`{}`, `{"q":2}`, `["x",1]`, `[[]]`, `3`, `"a"`, `"bcdefg"`, `true`, `false`, `null`}
			if at != "" {
				var l []string
				va := newValidator(mustDecode(`{"not":` + n + `}`))
				for _, x := range u {
					if va.check(mustDecode(x)) == "" {
						l = append(l, x)
					}
				}
				u = l
			}
			add(reachCase{family: "negated type", schema: fmt.Sprintf(f, n), universe: u, by: by, at: at, cap: 20000, dev: 2, opts: optSet{"MaximumUniqueGeneratorAttempts": 2}})
		}
	}
	// a type that the not gives as well, with more: the rest of it stays
	for _, t := range [][]string{
		{"number", "3", `"maximum":-1`, `"minimum":9`, `"exclusiveMaximum":-1`, `"exclusiveMinimum":9`, `"const":500`, `"enum":[500,501]`, `"multipleOf":7`},
		{"integer", "3", `"maximum":-1`, `"minimum":9`, `"exclusiveMaximum":-1`, `"exclusiveMinimum":9`, `"const":500`, `"enum":[500,501]`, `"multipleOf":7`},
		{"string", `"abcdefg"`, `"minLength":300`, `"maxLength":1`, `"pattern":"^zz$"`, `"format":"ipv4"`, `"const":"z"`, `"enum":["y","z"]`},
		{"array", `["x",1]`, `"minItems":30`, `"maxItems":1`, `"items":{"type":"boolean"}`, `"prefixItems":[{"const":77}]`, `"const":[9]`, `"enum":[[8],[9]]`},
		{"object", `{"q":2}`, `"minProperties":30`, `"maxProperties":0`, `"required":["a"]`, `"properties":{"a":{"const":1}},"required":["a"]`, `"const":{"a":9}`, `"enum":[{"a":8}]`},
	} {
		low := map[string]string{"number": `,"minimum":0,"maximum":8`, "integer": `,"minimum":0,"maximum":8`, "array": `,"minItems":2`, "object": `,"minProperties":1`}[t[0]]
		for _, k := range t[2:] {
			for _, f := range []string{`{"type":%[1]q,"not":{"type":%[1]q,%[2]s}%[3]s}`, `{"type":[%[1]q],"not":{"type":[%[1]q],%[2]s}%[3]s}`, `{"type":%[1]q,"not":{"type":[%[1]q,"null"],%[2]s}%[3]s}`, `{"type":[%[1]q,"null"],"not":{"type":%[1]q,%[2]s}%[3]s}`,
				`{"allOf":[{"type":%[1]q%[3]s},{"not":{"type":%[1]q,%[2]s}}]}`, `{"type":%[1]q,"not":{%[2]s}%[3]s}`} {
				u := []string{t[1]}
				if strings.Contains(f, `"null"],"not"`) {
					u = append(u, "null")
				}
				add(reachCase{family: "negated same type", schema: fmt.Sprintf(f, t[0], k, low), universe: u, by: byType, cap: 20000, dev: 2, opts: optSet{"MaximumUniqueGeneratorAttempts": 2}})
			}
		}
	}
	// recursion: stopping and going on
	add(reachCase{family: "recursion", schema: `{"$ref":"#/$defs/t","$defs":{"t":{"anyOf":[{"const":0},{"type":"array","items":{"$ref":"#/$defs/t"},"minItems":1,"maxItems":1}]}}}`, universe: []string{`0`, `[0]`, `[[0]]`}, opts: optSet{"BypassCyclicReferenceCheck": 1, "MaximumReferenceDepth": 4}})
	add(reachCase{family: "recursion", schema: `{"$ref":"#/$defs/t","$defs":{"t":{"type":"object","properties":{"n":{"$ref":"#/$defs/t"}},"additionalProperties":false}}}`, universe: []string{`{}`, `{"n":{}}`, `{"n":{"n":{}}}`}, opts: optSet{"BypassCyclicReferenceCheck": 1, "MaximumReferenceDepth": 5}})
	add(reachCase{family: "references", schema: `{"anyOf":[{"$ref":"#/$defs/a"},{"$ref":"#/$defs/b"},{"$ref":"#/$defs/c"}],"$defs":{"a":{"const":1},"b":{"const":2},"c":{"$ref":"#/$defs/d"},"d":{"enum":[3,4]}}}`, universe: []string{`1`, `2`, `3`, `4`}})
	// conditions: both sides
	for _, s := range []string{
		`{"type":"object","properties":{"k":{"enum":["x","y"]},"v":{"enum":[1,2]}},"required":["k","v"],"additionalProperties":false,"if":{"properties":{"k":{"const":"x"}}},"then":{"properties":{"v":{"const":1}}},"else":{"properties":{"v":{"const":2}}}}`,
		`{"type":"object","properties":{"k":{"enum":["x","y"]},"v":{"enum":[1,2]}},"required":["k","v"],"additionalProperties":false,"if":{"properties":{"k":{"const":"x"}}},"then":{"properties":{"v":{"const":1}}}}`,
		`{"type":"object","properties":{"k":{"enum":["x","y"]},"v":{"enum":[1,2]}},"required":["k","v"],"additionalProperties":false,"if":{"properties":{"k":{"const":"x"}}},"else":{"properties":{"v":{"const":2}}}}`,
		`{"type":"object","properties":{"k":{"enum":["x","y"]},"v":{"enum":[1,2]}},"required":["k","v"],"additionalProperties":false,"oneOf":[{"properties":{"k":{"const":"x"}}},{"properties":{"v":{"const":2}}}]}`,
		`{"type":"object","properties":{"k":{"enum":["x","y"]},"v":{"enum":[1,2]}},"required":["k","v"],"additionalProperties":false,"anyOf":[{"properties":{"k":{"const":"x"}}},{"properties":{"v":{"const":2}}}]}`,
	} {
		add(reachCase{family: "condition", schema: s, universe: []string{`{"k":"x","v":1}`, `{"k":"x","v":2}`, `{"k":"y","v":1}`, `{"k":"y","v":2}`}, cap: 60000, opts: optSet{"MaximumIfAttempts": 3, "MaximumOneOfAttempts": 3}})
	}
	return out
}

func init() {
	register(&property{
		id:    "C23",
		level: "model_checking",
		rule:  "One case per schema with a finite choice: the values of a finite universe that an independent validator accepts have to be among the outputs of the exhaustively explored choice tree.",
		jobs: func(tier string) []job {
			cases := reachCases(tier == "thorough")
			var out []job
			for i := 0; i < len(cases); i += 10 {
				part := cases[i:min(i+10, len(cases))]
				out = append(out, job{key: "reach " + part[0].schema, run: func(c *jctx) {
					for _, rc := range part {
						rc.run(c)
					}
				}})
			}
			return out
		},
		notes: []string{"A case counts as enumerated completely when every alternative was found or the whole tree was explored.", "Tuples are always generated in full, so lengths below the length of the tuple are not required; lengths of strings are not required either.", "Float draws are explored at evenly spaced points that suffice for the ranges used."},
	})
}
