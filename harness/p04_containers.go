package main

import (
	"fmt"
	"regexp"
	"strings"
)

// C04: objects. C05: arrays.

type kv struct{ k, v string }

func obj(kvs ...kv) string {
	var b strings.Builder
	b.WriteByte('{')
	first := true
	for _, x := range kvs {
		if x.v == "" {
			continue
		}
		if !first {
			b.WriteByte(',')
		}
		first = false
		fmt.Fprintf(&b, "%q:%s", x.k, x.v)
	}
	b.WriteByte('}')
	return b.String()
}

func strList(l []string) string {
	if l == nil {
		return ""
	}
	return js(l)
}

func itoa(n int) string {
	if n < 0 {
		return ""
	}
	return fmt.Sprint(n)
}

// satisfiable reports whether a member of a finite universe is valid against schema.
func satisfiable(schema string, universe []interface{}) bool {
	va := newValidator(mustDecode(schema))
	for _, u := range universe {
		if va.check(u) == "" {
			return true
		}
	}
	return false
}

// objectFeasible decides satisfiability of an object schema whose keywords constrain
// each key on its own: a key is allowed when one of vals fits it.
func objectFeasible(props, pats, addl string, req []string, mn, mx int, universe []string) bool {
	one := newValidator(mustDecode(obj(kv{"type", `"object"`}, kv{"properties", props}, kv{"patternProperties", pats}, kv{"additionalProperties", addl})))
	allowed := map[string]bool{}
	for _, k := range universe {
		for _, v := range []string{"1", "true", `"s"`, "null", "{}", "[]"} {
			if one.check(map[string]interface{}{k: mustDecode(v)}) == "" {
				allowed[k] = true
				break
			}
		}
	}
	uniq := map[string]bool{}
	for _, r := range req {
		if !allowed[r] {
			return false
		}
		uniq[r] = true
	}
	if mx >= 0 && (len(uniq) > mx || mn > mx) {
		return false
	}
	return mn <= len(allowed)
}

func objectCases(tier string) []scase {
	th := tier == "thorough"
	I, B, S := `{"type":"integer","minimum":1,"maximum":2}`, `{"type":"boolean"}`, `{"const":"s"}`
	props := []struct {
		keys []string
		text string
	}{
		{nil, ""},
		{[]string{}, "{}"},
		{[]string{"a"}, `{"a":` + I + `}`},
		{[]string{"a", "b"}, `{"a":` + I + `,"b":` + B + `}`},
		{[]string{"a", "b", "c"}, `{"a":` + I + `,"b":` + B + `,"c":` + S + `}`},
	}
	pats := []string{"", `{"^p[0-9]$":` + I + `}`, `{"^p[0-9]$":` + I + `,"^x[0-9]$":` + B + `}`, `{"^(z|q[0-9])$":` + I + `}`, `{"^[mn]$":` + B + `}`}
	addls := []string{"", "false", "true", I}
	reqs := [][]string{nil, {}, {"a"}, {"a", "b"}, {"z"}, {"a", "z"}, {"p1"}}
	mins := []int{-1, 0, 1, 2, 3}
	maxs := []int{-1, 0, 1, 2, 4}
	if th {
		mins = append(mins, 4, 6)
		maxs = append(maxs, 3, 5, 11)
	}
	universe := []string{"a", "b", "c", "z"}
	for i := 0; i < 10; i++ {
		universe = append(universe, fmt.Sprint("p", i), fmt.Sprint("x", i), fmt.Sprint("q", i), fmt.Sprint("e", i))
	}
	universe = append(universe, "m", "n")
	var out []scase
	for _, p := range props {
		for pi, pat := range pats {
			for ai, add := range addls {
				for ri, req := range reqs {
					for _, mn := range mins {
						for _, mx := range maxs {
							if mn >= 0 && mx >= 0 && mn > mx && (pi != 0 || ai != 0) {
								continue
							}
							if !th && pi >= 2 && (mx > 1 || mn > 2) {
								continue
							}
							sch := obj(kv{"type", `"object"`}, kv{"properties", p.text}, kv{"patternProperties", pat}, kv{"additionalProperties", add}, kv{"required", strList(req)}, kv{"minProperties", itoa(mn)}, kv{"maxProperties", itoa(mx)})
							c := scase{family: "object", schema: sch, strict: true, search: searchCfg{smallN: 6, fullCap: 220, devBound: 1, devCap: 60}, envs: []env{{0, 0}}}
							fairNames := false
							if pat != "" {
								// generated names are choices, too. Where only more names reach minProperties, an
								// environment that repeats one name for ever is unfair: deviations of fair schedules only
								c.search.exec.openQuiet = true
								fairNames = add == "false"
							}
							if th {
								c.search.fullCap, c.search.devBound, c.search.devCap = 4000, 2, 1500
								c.envs = []env{{0, 0}, {1, 0}, {0, 1}, {2, 3}}
							}
							if fairNames {
								c.search.fullCap, c.search.policies, c.search.devCap = -1, fairPolicies, c.search.devCap*2
							}
							if objectFeasible(p.text, pat, add, req, mn, mx, universe) {
								c.expect, c.fair = expParse, true
							} else {
								c.expect = expReject
							}
							out = append(out, c)
							// the same object below other containers, and under other defaults
							if ri <= 3 && pi <= 1 && (th || (mn <= 1 && mx <= 1)) {
								o := c
								o.opts = genOpts{ObjMin: 2, ObjMax: 3}
								out = append(out, o)
								if c.expect == expParse {
									n := c
									n.schema = `{"type":"object","properties":{"o":` + sch + `},"required":["o"],"additionalProperties":false}`
									out = append(out, n)
									n.schema = `{"type":"array","items":` + sch + `,"minItems":1,"maxItems":1}`
									out = append(out, n)
								}
							}
							if c.expect == expParse && !fairNames && ri != 1 && (th || pi <= 1 && mn != 0 && mx != 0) {
								// past the step limit the object is as small as allowed, and still an instance of the schema
								m := c
								m.opts = genOpts{MaxSteps: 1, Cutoff: 100000}
								m.search.fullCap, m.search.devCap = 60, 30
								m.schema = `{"type":"array","items":` + sch + `,"minItems":1,"maxItems":1}`
								out = append(out, m)
							}
						}
					}
				}
			}
		}
	}
	// Names made up by the library that are declared or match a pattern; generated names that are declared
	C := `{"const":"c"}`
	for _, pr := range []string{"", `{"additional_0":` + C + `,"fallback_0":` + C + `,"min_filler_0":` + C + `,"min_filler_1":` + C + `}`, `{"a":{"const":1},"additional_1":` + C + `,"fallback_1":` + C + `,"min_filler_2":` + C + `}`} {
		for _, pat := range []string{"", `{"^[ab]$":` + I + `}`, `{"^m":{"const":"c"}}`, `{"^(additional|fallback|min)_":{"const":"c"},"^[ab]$":` + I + `}`, `{"_":{"const":"c"}}`} {
			for _, add := range []string{"", "false", I} {
				for _, req := range [][]string{nil, {"additional_0"}, {"a", "min_filler_1"}, {"fallback_0", "min_filler_0", "additional_1"}} {
					for _, mn := range []int{-1, 1, 3, 5} {
						for _, mx := range []int{-1, 3, 5} {
							for _, o := range []genOpts{{}, {ObjMin: 3, ObjMax: 4}} {
								sch := obj(kv{"type", `"object"`}, kv{"properties", pr}, kv{"patternProperties", pat}, kv{"additionalProperties", add}, kv{"required", strList(req)}, kv{"minProperties", itoa(mn)}, kv{"maxProperties", itoa(mx)})
								c := scase{family: "object-names", schema: sch, opts: o, search: searchCfg{smallN: 6, fullCap: -1, policies: fairPolicies, devBound: 1, devCap: 40}}
								c.search.exec.openQuiet = true
								if add == "false" && mn > 1 {
									c.noVal = true
								}
								out = append(out, c)
							}
						}
					}
				}
			}
		}
	}
	// Names and kinds of values: each name in each role with each kind of value
	names := []string{"", " ", "a/b", "~0", "a~1b", "%2F", "$ref", "type", "properties", "\"", "\\", "\n", "é", "\U0001F600", ".", "0", "-1", "a.b*", strings.Repeat("n", 70)}
	values := []string{"{}", `{"type":"null"}`, B, `{"type":"number","minimum":0.5,"maximum":1.5}`, `{"type":"string","pattern":"^[xy]{2}$"}`, `{"enum":[null,1,"a"]}`, `{"const":null}`, `{"const":{"":[]}}`,
		`{"type":"array","items":{"type":"boolean"},"minItems":1,"maxItems":2}`, `{"type":"object","properties":{"":{"type":"null"}},"required":[""]}`, `{"type":["null","boolean"]}`,
		`{"anyOf":[{"const":1},{"const":2}]}`, `{"not":{"type":["string","object","array","number"]}}`, `{"$ref":"#/definitions/v"}`}
	for ni, name := range names {
		for vi, v := range values {
			if !th && ni > 1 && vi > 1 && (ni+vi)%4 != 0 {
				continue
			}
			q := js(name)
			pat := js("^" + regexp.QuoteMeta(name) + "$")
			for _, body := range []string{
				`"properties":{` + q + `:` + v + `},"required":[` + q + `]`,
				`"properties":{` + q + `:` + v + `},"required":[` + q + `],"additionalProperties":false`,
				`"properties":{` + q + `:` + v + `},"additionalProperties":false,"minProperties":1`,
				`"properties":{"k":{"const":"k"},` + q + `:` + v + `},"required":["k"],"additionalProperties":false,"minProperties":2`,
				`"required":[` + q + `],"additionalProperties":` + v,
				`"required":[` + q + `,"k"],"properties":{"k":{"const":"k"}},"additionalProperties":` + v,
				`"patternProperties":{` + pat + `:` + v + `},"required":[` + q + `]`,
				`"patternProperties":{` + pat + `:` + v + `},"required":[` + q + `],"additionalProperties":false`,
				`"patternProperties":{` + pat + `:` + v + `},"additionalProperties":false,"minProperties":1`,
				`"patternProperties":{` + pat + `:` + v + `},"additionalProperties":{"const":"k"},"required":["k",` + q + `]`,
			} {
				for _, ty := range []string{`"type":"object",`, "", `"type":["object"],`} {
					if ty != `"type":"object",` && vi > 0 && !th {
						continue
					}
					c := scase{family: "object-shapes", expect: expParse, search: searchCfg{smallN: 6, fullCap: 120, devBound: 1, devCap: 40}}
					c.search.exec.openQuiet = true
					c.schema = `{` + ty + body + `,"definitions":{"v":{"type":"boolean"}}}`
					out = append(out, c)
				}
			}
		}
	}
	// Many properties
	for _, n := range []int{5, 9, 17, 33, 65, 130} {
		var keys []string
		for i := 0; i < n; i++ {
			keys = append(keys, fmt.Sprintf("%q:%s", fmt.Sprint("k", i), []string{I, B, S}[i%3]))
		}
		for _, rq := range []int{0, 1, n / 2, n} {
			var req []string
			for i := 0; i < rq; i++ {
				req = append(req, fmt.Sprint("k", (i*7+3)%n))
			}
			if uniq := map[string]bool{}; n%7 == 0 || func() bool {
				for _, r := range req {
					if uniq[r] {
						return true
					}
					uniq[r] = true
				}
				return false
			}() {
				continue
			}
			for _, add := range []string{"", "false", I} {
				for _, mn := range []int{-1, n / 2, n - 1, n, n + 3} {
					for _, mx := range []int{-1, n - 1, n, n + 3} {
						if mx >= 0 && (mn > mx || rq > mx) || add == "false" && mn > n {
							continue
						}
						for _, o := range []genOpts{{}, {ObjMin: 2, ObjMax: n}, {ObjMin: n, ObjMax: n}} {
							if o.ObjMin == n && !th && n > 33 {
								continue
							}
							c := scase{family: "object-many", expect: expParse, opts: o, search: searchCfg{smallN: 3, fullCap: 60, devBound: 1, devCap: 20}}
							c.opts.MaxSteps, c.opts.Cutoff = 100000, 1000000
							c.schema = obj(kv{"type", `"object"`}, kv{"properties", "{" + strings.Join(keys, ",") + "}"}, kv{"additionalProperties", add}, kv{"required", strList(req)}, kv{"minProperties", itoa(mn)}, kv{"maxProperties", itoa(mx)})
							out = append(out, c)
						}
					}
				}
			}
		}
	}
	// A declared property that also falls under a pattern has to satisfy both.
	for _, s := range []string{
		`{"type":"object","properties":{"a":{"type":"integer","minimum":1,"maximum":2}},"patternProperties":{"^a$":{"const":1}},"required":["a"]}`,
		`{"type":"object","properties":{"a":{"type":"integer","minimum":1,"maximum":2}},"patternProperties":{"^a$":{"const":1}},"additionalProperties":false,"minProperties":1}`,
	} {
		out = append(out, scase{family: "object-overlap", schema: s, expect: expParse, search: searchCfg{smallN: 6, fullCap: 2000, devBound: 2, devCap: 500}})
	}
	return out
}

var arrAlphabet = func() []interface{} {
	var out []interface{}
	for _, t := range []string{"0", "1", "2", "true", "false", `"a"`, `"b"`, `"c"`, `"d"`, "7", "null", `"f1"`, `"f2"`, `"f3"`, `"f4"`, `"f5"`} {
		out = append(out, mustDecode(t))
	}
	return out
}()

type arrSpec struct {
	prefix        []string
	items         string // "" absent, "false"
	contains      string
	minC, maxC    int // -1 absent
	uniq          bool
	minI, maxI    int
	legacy        bool
	unevalFalse   bool
	unevalSchema  string
	additionalLeg string // legacy additionalItems
}

// feasible: 1 some array over the alphabet is valid, 0 none, -1 search cut.
func (s arrSpec) feasible() int {
	fits := func(schema string, v interface{}) bool {
		return schema == "" || (schema != "false" && newValidator(mustDecode(schema)).check(v) == "")
	}
	rest := s.items
	if s.legacy {
		rest = s.additionalLeg
	}
	if rest == "" && s.unevalSchema != "" {
		rest = s.unevalSchema
	}
	if rest == "" && s.unevalFalse {
		rest = "false"
	}
	allow := make([][]bool, len(s.prefix)+1)
	for i := range allow {
		sch := rest
		if i < len(s.prefix) {
			sch = s.prefix[i]
		}
		allow[i] = make([]bool, len(arrAlphabet))
		for k, v := range arrAlphabet {
			allow[i][k] = fits(sch, v)
		}
	}
	cont := make([]bool, len(arrAlphabet))
	for k, v := range arrAlphabet {
		cont[k] = s.contains != "" && fits(s.contains, v)
	}
	minC, maxC := s.minC, s.maxC
	if s.contains == "" {
		minC, maxC = 0, -1
	} else if minC < 0 {
		minC = 1
	}
	nodes := 0
	used := make([]int, len(arrAlphabet))
	var rec func(n, c int) bool
	rec = func(n, c int) bool {
		nodes++
		if nodes > 60000 {
			return false
		}
		if n >= s.minI && c >= minC && (maxC < 0 || c <= maxC) && (s.maxI < 0 || n <= s.maxI) {
			return true
		}
		if n >= 6 || (s.maxI >= 0 && n >= s.maxI) {
			return false
		}
		row := allow[len(s.prefix)]
		if n < len(s.prefix) {
			row = allow[n]
		}
		for k := range arrAlphabet {
			if !row[k] || (s.uniq && used[k] > 0) {
				continue
			}
			d := c
			if cont[k] {
				d++
			}
			if maxC >= 0 && d > maxC {
				continue
			}
			used[k]++
			ok := rec(n+1, d)
			used[k]--
			if ok {
				return true
			}
		}
		return false
	}
	if rec(0, 0) {
		return 1
	}
	if nodes > 60000 {
		return -1
	}
	return 0
}

func (s arrSpec) text() string {
	k := []kv{{"type", `"array"`}}
	pf := ""
	if s.prefix != nil {
		pf = "[" + strings.Join(s.prefix, ",") + "]"
	}
	if s.legacy {
		k = append(k, kv{"items", pf}, kv{"additionalItems", s.additionalLeg})
	} else {
		k = append(k, kv{"prefixItems", pf}, kv{"items", s.items})
	}
	k = append(k, kv{"contains", s.contains}, kv{"minContains", itoa(s.minC)}, kv{"maxContains", itoa(s.maxC)})
	if s.uniq {
		k = append(k, kv{"uniqueItems", "true"})
	}
	if s.unevalFalse {
		k = append(k, kv{"unevaluatedItems", "false"})
	}
	k = append(k, kv{"unevaluatedItems", s.unevalSchema}, kv{"minItems", itoa(s.minI)}, kv{"maxItems", itoa(s.maxI)})
	return obj(k...)
}

// overlap: some value fits both schemas.
func overlap(a, b string) bool {
	for _, v := range arrAlphabet {
		if newValidator(mustDecode(a)).check(v) == "" && newValidator(mustDecode(b)).check(v) == "" {
			return true
		}
	}
	return false
}

func arrayCases(tier string) []scase {
	th := tier == "thorough"
	I, E, B := `{"type":"integer","minimum":0,"maximum":2}`, `{"enum":["a","b","c","d"]}`, `{"type":"boolean"}`
	items := []string{"", I, E, B, "false", `{"const":7}`, `{"type":["boolean","null"]}`}
	prefixes := [][]string{nil, {`{"const":1}`}, {`{"const":1}`, B}, {I, `{"enum":["a","b"]}`, `{"type":"null"}`}}
	conts := []struct {
		c        string
		min, max int
	}{{"", -1, -1}, {`{"const":1}`, -1, -1}, {`{"type":"integer","minimum":1,"maximum":2}`, 2, -1}, {`{"const":1}`, 1, 1}, {`{"type":"integer","minimum":1,"maximum":2}`, 1, 2}, {`{"type":"integer","minimum":1,"maximum":2}`, 3, 3}}
	mins := []int{-1, 0, 1, 2, 3}
	maxs := []int{-1, 0, 1, 2, 3, 5}
	var out []scase
	add := func(fam string, s arrSpec) {
		c := scase{family: fam, schema: s.text(), search: searchCfg{smallN: 6, fullCap: 200, devBound: 1, devCap: 80}, opts: genOpts{UniqueAttempts: 8}}
		if th {
			c.search.fullCap, c.search.devBound, c.search.devCap = 5000, 2, 2000
			c.envs = []env{{0, 0}, {1, 0}}
		}
		mc := s.minC
		if s.contains != "" && mc <= 0 {
			mc = 1
		}
		if s.contains == "" {
			mc = 0
		}
		closed := s.items == "false" || s.unevalFalse || (s.legacy && s.additionalLeg == "false")
		switch {
		case s.minI > 0 && s.maxI >= 0 && s.minI > s.maxI,
			s.contains != "" && s.maxC > 0 && s.minC > s.maxC,
			s.contains != "" && s.maxI >= 0 && mc > s.maxI,
			closed && !s.unevalFalse && s.minI > len(s.prefix):
			c.expect = expReject
		case s.feasible() != 1:
			c.noVal = true
		case s.maxI >= 0 && len(s.prefix)+mc > s.maxI: // deliberate refusal
		case s.contains != "" && s.items != "" && !overlap(s.items, s.contains): // ditto: contains is drawn from items
		case s.contains != "" && s.uniq:
			c.expect = expParse // running out of unique members is reported in the output
		default:
			c.expect, c.fair = expParse, true
		}
		out = append(out, c)
		if c.expect == expParse && s.contains == "" && (th || s.minI <= 1 && s.maxI <= 2) {
			o := c
			o.opts = genOpts{UniqueAttempts: 8, ArrMin: 1, ArrMax: 2}
			out = append(out, o)
			n := c
			n.schema = `{"type":"array","items":` + c.schema + `,"minItems":1,"maxItems":2}`
			out = append(out, n)
			n.schema = `{"type":"object","properties":{"o":` + c.schema + `},"required":["o"],"additionalProperties":false}`
			out = append(out, n)
		}
		if c.expect == expParse && (th || s.contains != "" || s.minI != 0 && s.maxI != 0) {
			// past the step limit the array is as short as allowed, and still an instance of the schema
			m := c
			m.opts = genOpts{UniqueAttempts: 8, MaxSteps: 1, Cutoff: 100000}
			m.search.fullCap, m.search.devCap = 60, 30
			m.schema = `{"type":"object","properties":{"o":` + c.schema + `},"required":["o"],"additionalProperties":false}`
			out = append(out, m)
			if th {
				m.schema = c.schema
				out = append(out, m)
			}
		}
	}
	for _, it := range items {
		for _, pf := range prefixes {
			for _, ct := range conts {
				if ct.c != "" {
					// Not covered (see DESIGN.md): contains next to a closed tuple, and maxContains where
					// the other items may match contains, too.
					if it == "false" {
						continue
					}
					if ct.max >= 0 {
						skip := it != "" && overlap(it, ct.c)
						for _, p := range pf {
							skip = skip || overlap(p, ct.c)
						}
						if skip {
							continue
						}
					}
				}
				for _, u := range []bool{false, true} {
					for _, mn := range mins {
						for _, mx := range maxs {
							if mn >= 0 && mx >= 0 && mn > mx && (ct.c != "" || pf != nil) {
								continue
							}
							add("array", arrSpec{items: it, prefix: pf, contains: ct.c, minC: ct.min, maxC: ct.max, uniq: u, minI: mn, maxI: mx})
						}
					}
				}
			}
		}
	}
	for _, pf := range prefixes[1:] {
		for _, u := range []bool{false, true} {
			for _, mn := range mins {
				for _, mx := range maxs {
					for _, ad := range []string{"", "false", E} {
						add("array-legacy", arrSpec{legacy: true, additionalLeg: ad, prefix: pf, uniq: u, minI: mn, maxI: mx, minC: -1, maxC: -1})
					}
					add("array-unevaluated", arrSpec{prefix: pf, uniq: u, minI: mn, maxI: mx, minC: -1, maxC: -1, unevalSchema: E})
					if mn <= len(pf) {
						add("array-unevaluated", arrSpec{prefix: pf, uniq: u, minI: mn, maxI: mx, minC: -1, maxC: -1, unevalFalse: true})
					}
				}
			}
		}
	}
	// items and contains, either with types and bounds of their own, which only overlap: what is
	// generated for contains has to be allowed by items, too.
	for _, p := range [][2]string{
		{I, `{"type":"integer","multipleOf":2}`},
		{I, `{"type":"integer","minimum":2,"maximum":9}`},
		{I, `{"type":"integer","minimum":-3,"maximum":1}`},
		{I, `{"minimum":1}`},
		{I, `{"type":["integer","string"],"minimum":1,"maxLength":3}`},
		{`{"type":["integer","boolean"],"minimum":0,"maximum":2}`, `{"type":["boolean","null"]}`},
		{`{"type":["integer","boolean"],"minimum":0,"maximum":2}`, `{"type":["integer","null"],"minimum":2,"maximum":5}`},
		{`{"type":"number","minimum":0,"maximum":2}`, `{"type":"integer","minimum":1,"maximum":7}`},
		{`{"type":"string","minLength":2,"maxLength":3}`, `{"type":"string","minLength":3,"maxLength":6}`},
		{`{"type":"string","maxLength":3}`, `{"type":"string","minLength":2}`},
		{E, `{"enum":["c","d","e"]}`},
		{`{"type":"array","maxItems":2}`, `{"type":"array","minItems":2,"maxItems":4}`},
		{`{"type":"array","items":{"type":"boolean"},"maxItems":2}`, `{"type":"array","minItems":1}`},
		{`{"type":"object","properties":{"a":{"type":"integer"}},"required":["a"],"additionalProperties":false}`, `{"type":"object","properties":{"a":{"minimum":3,"maximum":5}}}`},
	} {
		for _, pf := range []string{"", `,"prefixItems":[{}]`, `,"prefixItems":[{"const":"p"},{"type":"null"}]`} {
			for _, mc := range []string{"", `,"minContains":2`, `,"minContains":0`} {
				for _, sz := range []string{"", `,"minItems":4`, `,"minItems":2,"maxItems":6`} {
					c := scase{family: "array-contains-overlap", expect: expParse, search: searchCfg{smallN: 6, fullCap: 200, devBound: 1, devCap: 80}, opts: genOpts{UniqueAttempts: 8}}
					if th {
						c.search.fullCap, c.search.devBound, c.search.devCap = 5000, 2, 2000
					}
					c.schema = `{"type":"array","items":` + p[0] + `,"contains":` + p[1] + pf + mc + sz + `}`
					out = append(out, c)
				}
			}
		}
	}
	for _, s := range []string{
		`{"type":"array","prefixItems":[{"const":1}],"contains":{"const":1},"minContains":1,"maxContains":1}`,
		`{"type":"array","items":{"type":"integer","minimum":0,"maximum":2},"contains":{"type":"integer","minimum":1,"maximum":2},"maxContains":1}`,
		`{"type":"array","prefixItems":[{"type":"integer","minimum":0,"maximum":2}],"items":false,"contains":{"const":1}}`,
	} {
		out = append(out, scase{family: "array-contains-count", schema: s, expect: expParse, search: searchCfg{smallN: 6, fullCap: 2000, devBound: 2, devCap: 500}})
	}
	return out
}

func init() {
	register(&property{
		id: "C04", level: "model_checking",
		rule: "one case per object schema of a bounded grammar",
		jobs: func(tier string) []job { return caseJobs(objectCases(tier), 20) },
	})
	register(&property{
		id: "C05", level: "model_checking",
		rule: "one case per array schema of a bounded grammar",
		jobs: withMany("C05", func(tier string) []job { return caseJobs(arrayCases(tier), 20) }),
	})
}
