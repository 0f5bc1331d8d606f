package main

// C27: combinators that add nothing change nothing. Every case is a pair: a schema and the same schema inside
// combinators, split over several, or behind references, which says the same. Both are explored over the same choices.

import (
	"fmt"
	"strings"
)

// wrapUnits lists, per type, keywords (or groups that belong together) to put next to a base.
type wrapGroup struct {
	base  []string
	units []string
}

var wrapGroups = map[string]wrapGroup{
	"integer": {
		base: []string{`"type":"integer","minimum":-3,"maximum":6`, `"type":"number","multipleOf":0.5,"minimum":0,"maximum":3`},
		units: []string{
			`"multipleOf":2`, `"multipleOf":1.5`, `"exclusiveMinimum":0`, `"exclusiveMaximum":3`, `"enum":[0,1,2,3,"x",2.5]`, `"const":2`, `"const":2.5`,
			`"not":{"const":1}`, `"not":{"minimum":2}`, `"not":{"multipleOf":2}`, `"not":{"enum":[0,1,2]}`, `"not":{"type":"string"}`, `"not":{"anyOf":[{"const":1},{"maximum":0}]}`,
			`"if":{"minimum":2},"then":{"multipleOf":3},"else":{"maximum":0}`, `"if":{"multipleOf":2},"then":{"maximum":2}`, `"if":{"const":1},"else":{"minimum":2}`,
			`"anyOf":[{"maximum":0},{"minimum":2}]`, `"anyOf":[{"const":1},{"multipleOf":3}]`, `"oneOf":[{"maximum":1},{"minimum":2}]`, `"oneOf":[{"multipleOf":2},{"multipleOf":3}]`, `"allOf":[{"minimum":1},{"maximum":2}]`, `"allOf":[{"$ref":"#/$defs/two"}]`,
			`"anyOf":[{"$ref":"#/$defs/two"},{"const":0}]`, `"not":{"$ref":"#/$defs/two"}`, `"type":["integer","string"]`,
		},
	},
	"string": {
		base: []string{`"type":"string","enum":["","a","bb","ccc","1"]`, `"type":"string","pattern":"^[ab]{1,2}$"`, `"type":"string","minLength":1,"maxLength":2`},
		units: []string{
			`"minLength":1`, `"maxLength":2`, `"minLength":2,"maxLength":3`, `"pattern":"^[a-c]+$"`, `"pattern":"b"`, `"const":"bb"`, `"const":"a"`, `"not":{"const":"a"}`, `"not":{"maxLength":1}`, `"not":{"pattern":"^a"}`, `"not":{"type":"integer"}`, `"not":{"enum":["a","bb"]}`,
			`"if":{"minLength":2},"then":{"pattern":"b$"}`, `"if":{"const":"a"},"then":true,"else":{"minLength":2}`, `"anyOf":[{"const":"a"},{"const":"bb"}]`, `"oneOf":[{"minLength":2},{"const":"a"}]`, `"anyOf":[{"maxLength":1},{"pattern":"^bb$"}]`, `"allOf":[{"minLength":1}]`,
			`"format":"ipv4"`, `"enum":["a","bb"]`,
		},
	},
	"array": {
		base: []string{`"type":"array","items":{"enum":[1,2,3]},"minItems":1,"maxItems":2`, `"type":"array","prefixItems":[{"const":0},{"enum":[1,2]}],"items":false,"minItems":1,"maxItems":2`, `"type":"array","prefixItems":[{"enum":[1,2]}],"items":{"enum":[5,6]},"minItems":1,"maxItems":2`, `"type":"array","items":[{"enum":[1,2]}],"additionalItems":{"const":5},"minItems":1,"maxItems":2`},
		units: []string{
			`"uniqueItems":true`, `"contains":{"const":2}`, `"contains":{"const":5},"maxContains":1`, `"minItems":2`, `"maxItems":1`, `"maxItems":0`, `"enum":[[1],[1,5],[2,2],[0,1],[]]`, `"const":[1,5]`, `"const":[1]`,
			`"not":{"maxItems":1}`, `"not":{"contains":{"const":1}}`, `"not":{"const":[1]}`, `"if":{"minItems":2},"then":{"contains":{"const":2}}`, `"if":{"contains":{"const":2}},"then":{"minItems":2},"else":{"maxItems":1}`, `"anyOf":[{"minItems":2},{"contains":{"const":1}}]`, `"oneOf":[{"maxItems":1},{"minItems":2}]`,
			`"unevaluatedItems":false`, `"allOf":[{"items":{"enum":[1,2,5]}}]`, `"allOf":[{"contains":{"enum":[1,2]}}]`,
		},
	},
	"object": {
		base: []string{
			`"type":"object","properties":{"a":{"enum":[1,2]},"b":{"enum":["x","y"]}},"additionalProperties":false`, `"type":"object","properties":{"a":{"enum":[1,2]},"b":{"const":1}},"required":["a"],"additionalProperties":false`,
			`"type":"object","properties":{"a":{"enum":[1,2]}},"patternProperties":{"^c$":{"const":3}},"additionalProperties":false`, `"type":"object","properties":{"a":{"enum":[1,2]}},"additionalProperties":{"const":4},"maxProperties":1`,
		},
		units: []string{
			`"required":["a"]`, `"required":["a","b"]`, `"minProperties":1`, `"maxProperties":1`, `"minProperties":2`, `"enum":[{"a":1},{"a":2,"b":"x"},{"b":1},{}]`, `"const":{"a":1}`,
			`"not":{"required":["b"]}`, `"not":{"properties":{"a":{"const":1}}}`, `"not":{"properties":{"a":{"const":1}},"required":["a"]}`, `"not":{"const":{"a":1}}`, `"not":{"maxProperties":0}`,
			`"if":{"required":["b"]},"then":{"properties":{"a":{"const":1}}}`, `"if":{"properties":{"a":{"const":1}}},"then":{"required":["b"]},"else":{"required":["a"]}`, `"if":{"required":["a"]},"else":{"required":["b"]}`,
			`"anyOf":[{"required":["a"]},{"required":["b"]}]`, `"oneOf":[{"properties":{"a":{"const":1}},"required":["a"]},{"properties":{"a":{"const":2}},"required":["a"]}]`, `"allOf":[{"required":["a"]},{"properties":{"a":{"enum":[2,3]}}}]`, `"dependentRequired":{"a":["b"]}`,
		},
	},
	"any": {
		base: []string{``, `"type":["integer","string","null"],"minimum":1,"maximum":2,"minLength":1,"maxLength":1`, `"enum":[1,2,"a",null,true,[1],{"a":1}]`},
		units: []string{
			`"enum":[1,2,"a",null]`, `"enum":[[1],{"a":1},true]`, `"const":1`, `"const":null`, `"const":{"a":1}`, `"const":[1]`, `"const":"a"`, `"type":"integer"`, `"type":["null","boolean"]`, `"type":"null"`, `"type":"boolean"`,
			`"not":{"type":"integer"}`, `"not":{"type":["string","null"]}`, `"not":{"const":1}`, `"not":{"enum":[1,null]}`, `"anyOf":[{"const":1},{"type":"null"}]`, `"oneOf":[{"enum":[1,2]},{"enum":[2,null]}]`, `"oneOf":[{"type":"integer"},{"const":"a"}]`, `"allOf":[{"enum":[1,"a"]},{"type":["integer","null","string"]}]`,
			`"if":{"type":"integer"},"then":{"maximum":1}`, `"if":{"type":["integer","null"]},"then":{"const":1},"else":{"const":"a"}`, `"$ref":"#/$defs/mix"`,
		},
	},
}

const wrapDefs = `"$defs":{"two":{"const":2},"mix":{"enum":[1,"a",null]}}`

// belongTogether: keywords whose meaning depends on one another.
var belongTogether = [][]string{
	{"properties", "patternProperties", "additionalProperties"}, {"prefixItems", "items", "additionalItems", "unevaluatedItems"}, {"contains", "minContains", "maxContains"}, {"if", "then", "else"},
	{"pattern", "minLength", "maxLength", "format"},
}

type wrapDoc struct {
	parts []string // members, in groups
}

func (d wrapDoc) obj() string { return "{" + strings.Join(d.parts, ",") + "}" }

func keysOf(parts ...string) (out []string) {
	for _, p := range parts {
		out = append(out, parseTree("{"+p+"}").keys...)
	}
	return
}

func repeats(keys []string) bool {
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// apart reports whether two groups of members mean the same in different schemas.
func apart(a, b string) bool {
	ka, kb := keysOf(a), keysOf(b)
	for _, g := range belongTogether {
		in := func(keys []string) bool {
			for _, k := range keys {
				for _, l := range g {
					if k == l {
						return true
					}
				}
			}
			return false
		}
		if in(ka) && in(kb) {
			return false
		}
	}
	return true
}

func wrapDocs(g wrapGroup, units int) (out []wrapDoc) {
	var grow func(parts []string, from, left int)
	grow = func(parts []string, from, left int) {
		if len(parts) > 0 {
			out = append(out, wrapDoc{append([]string(nil), parts...)})
		}
		if left == 0 {
			return
		}
		for i := from; i < len(g.units); i++ {
			next := append(append([]string(nil), parts...), g.units[i])
			keys := keysOf(next...)
			if !repeats(keys) && (len(next) == 1 || keys[len(keys)-1] != "$ref" && keys[0] != "$ref") { // siblings of $ref are ignored
				grow(next, i+1, left-1)
			}
		}
	}
	for _, b := range g.base {
		if b == "" {
			grow(nil, 0, units)
		} else {
			grow([]string{b}, 0, units)
		}
	}
	return
}

type wrapping struct {
	name      string
	doc       string
	mayReject bool
	back      func(string) string
}

func unwrap(pre, post string) func(string) string {
	return func(raw string) string {
		if !strings.HasPrefix(raw, pre) || !strings.HasSuffix(raw, post) || len(raw) < len(pre)+len(post) {
			return raw
		}
		return raw[len(pre) : len(raw)-len(post)]
	}
}

// wrappers: %s is the schema. Those that start with ! may be reported as unsupported.
var wrappers = []string{
	`{"allOf":[%s]}`, `{"allOf":[%s,{}]}`, `{"allOf":[{},%s]}`, `{"allOf":[{"allOf":[%s]}]}`, `{"allOf":[%s,{"allOf":[{}]}]}`, `{"allOf":[{"title":"t"},%s,{"$defs":{}}]}`, `{"allOf":[%s,true]}`,
	`{"anyOf":[%s]}`, `{"oneOf":[%s]}`, `{"anyOf":[{"oneOf":[%s]}]}`, `{"oneOf":[{"anyOf":[%s]}]}`, `{"allOf":[{"anyOf":[%s]}]}`, `{"allOf":[{"oneOf":[%s]},{}]}`, `{"anyOf":[{"allOf":[%s]}]}`, `{"oneOf":[{"allOf":[{},%s]}]}`,
	`{"oneOf":[%s,false]}`, `{"anyOf":[false,%s]}`, `{"oneOf":[%s,{"not":{}}]}`, `{"anyOf":[{"not":{}},%s]}`,
	`{"anyOf":[%s,%s]}`, `{"allOf":[%s,%s]}`, `{"allOf":[{"$ref":"#/$defs/w"},{"$ref":"#/$defs/w"}]}`,
	`{"$ref":"#/$defs/w"}`, `{"allOf":[{"$ref":"#/$defs/w"}]}`, `{"allOf":[{"$ref":"#/$defs/w"},{}]}`, `{"anyOf":[{"$ref":"#/$defs/w"}]}`, `{"oneOf":[{"$ref":"#/$defs/w"}]}`, `{"allOf":[{},{"anyOf":[{"$ref":"#/$defs/w"}]}]}`, `{"allOf":[{"$ref":"#/$defs/v"}]}`, `{"$ref":"#/$defs/v"}`,
	`!{"not":{"not":%s}}`, `!{"if":{},"then":%s}`, `!{"if":true,"then":%s,"else":false}`, `!{"if":{"not":{}},"else":%s}`, `!{"if":false,"then":{"const":"wrong"},"else":%s}`, `!{"if":%s,"then":{},"else":false}`, `!{"if":%s,"else":{"not":{}}}`, `!{"if":{"$ref":"#/$defs/w"},"else":false}`, `!{"not":{"not":{"$ref":"#/$defs/w"}}}`,
	`!{"not":{"anyOf":[{"not":%s}]}}`, `!{"not":{"allOf":[{"not":%s}]}}`, `!{"not":{"oneOf":[{"not":%s}]}}`,
}

// insideWrappers are added to the schema itself: %m are its members.
var insideWrappers = []string{`"allOf":[{}]`, `"anyOf":[{}]`, `"oneOf":[{}]`, `"allOf":[]`, `"not":false`, `"not":{"not":{}}`, `"if":{},"then":{}`, `"anyOf":[{},{"const":1}]`, `"anyOf":[{"const":1},true]`, `"allOf":[{"allOf":[{}]},true]`, `"then":{"const":"wrong"}`, `"if":{"const":1}`, `"oneOf":[{},{"not":{}}]`}

var containers = []struct{ pre, post, doc string }{
	{`{"k":`, `}`, `{"type":"object","properties":{"k":%s},"required":["k"],"additionalProperties":false}`},
	{`[`, `]`, `{"type":"array","items":%s,"minItems":1,"maxItems":1}`},
	{`[`, `]`, `{"type":"array","prefixItems":[%s],"items":false,"minItems":1}`},
	{`[`, `]`, `{"allOf":[{"type":"array","items":{}},{"items":%s,"minItems":1,"maxItems":1}]}`},
	{`{"k":`, `}`, `{"allOf":[{"type":"object","properties":{"k":%s},"additionalProperties":false},{"required":["k"]}]}`},
	{`{"k":`, `}`, `{"type":"object","patternProperties":{"^k$":%s},"required":["k"],"additionalProperties":false}`},
	{`{"k":`, `}`, `{"type":"object","properties":{"k":%s},"patternProperties":{"^k$":{}},"required":["k"],"additionalProperties":false}`},
	{`{"k":`, `}`, `{"allOf":[{"type":"object","properties":{"k":{}},"required":["k"]},{"properties":{"k":%s},"additionalProperties":false}]}`},
	{`{"k":`, `}`, `{"allOf":[{"type":"object","properties":{"k":{}},"required":["k"],"maxProperties":1},{"additionalProperties":%s}]}`},
}

func (d wrapDoc) wrappings(thorough bool) (out []wrapping) {
	s := d.obj()
	defs := wrapDefs[:len(wrapDefs)-1] + `,"w":` + s + `,"v":{"$ref":"#/$defs/w"}}`
	add := func(name, doc string, back func(string) string) {
		may := doc[0] == '!' || strings.Contains(doc, "true") || strings.Contains(doc, "false") && back == nil
		// alternatives and conditions that can not hold may be reported
		if strings.HasPrefix(name, "next") || strings.HasPrefix(name, "split") {
			for _, k := range []string{"anyOf", "oneOf", "if", "not"} {
				may = may || strings.Contains(doc, `"`+k+`"`)
			}
		}
		doc = strings.TrimPrefix(doc, "!")
		out = append(out, wrapping{name, doc[:len(doc)-1] + "," + defs + "}", may, back})
	}
	for _, w := range wrappers {
		add(w, strings.ReplaceAll(w, "%s", s), nil)
	}
	ref := keysOf(d.parts...)[0] == "$ref"
	if len(d.parts) == 1 {
		for _, n := range []int{5, 9, 12, 33} {
			nothing := func(what string) string { return strings.Repeat(","+what, n) }
			add(fmt.Sprintf("%d branches that add nothing", n), `{"allOf":[`+s+nothing("{}")+`]}`, nil)
			add(fmt.Sprintf("after %d branches that add nothing", n), `{"allOf":[{}`+nothing("{}")+`,`+s+`]}`, nil)
			if n <= 5 || !strings.Contains(s, "Of") { // the alternatives of all branches are multiplied
				add(fmt.Sprintf("%d times in allOf", n), `{"allOf":[`+s+nothing(s)+`]}`, nil)
				add(fmt.Sprintf("%d references to it", n), `{"allOf":[{"$ref":"#/$defs/w"}`+nothing(`{"$ref":"#/$defs/w"}`)+`]}`, nil)
			}
			add(fmt.Sprintf("%d branches that never hold", n), `{"anyOf":[`+s+nothing("false")+`]}`, nil)
			add(fmt.Sprintf("after %d branches that never hold", n), `{"oneOf":[false`+nothing("false")+`,`+s+`]}`, nil)
			if n <= 12 {
				for _, k := range []string{"allOf", "anyOf", "oneOf"} {
					add(fmt.Sprintf("%d %s in one another", n, k), strings.Repeat(`{"`+k+`":[`, n)+s+strings.Repeat(`]}`, n), nil)
				}
			}
		}
	}
	for _, w := range insideWrappers {
		if ref || repeats(append(keysOf(w), keysOf(d.parts...)...)) || (strings.HasPrefix(w, `"then"`) || w == `"if":{"const":1}`) && strings.Contains(s, `"if"`) {
			continue
		}
		add("next to it "+w, "{"+strings.Join(d.parts, ",")+","+w+"}", nil)
	}
	for _, k := range containers {
		add(k.doc, strings.Replace(k.doc, "%s", s, 1), unwrap(k.pre, k.post))
	}
	// split over several schemas that all have to hold
	if n := len(d.parts); n > 1 {
		for mask := 1; mask < 1<<n-1; mask++ {
			var l, r []string
			ok := true
			for i, p := range d.parts {
				if mask>>i&1 == 1 {
					l = append(l, p)
				} else {
					r = append(r, p)
				}
			}
			for _, a := range l {
				for _, b := range r {
					ok = ok && apart(a, b)
				}
			}
			if !ok {
				continue
			}
			a, b := strings.Join(l, ","), strings.Join(r, ",")
			add(fmt.Sprintf("split %d allOf", mask), `{"allOf":[{`+a+`},{`+b+`}]}`, nil)
			if !repeats(append([]string{"allOf"}, keysOf(l...)...)) && keysOf(l...)[0] != "$ref" {
				add(fmt.Sprintf("split %d beside", mask), `{`+a+`,"allOf":[{`+b+`}]}`, nil)
			}
			add(fmt.Sprintf("split %d twice", mask), `{"allOf":[{`+a+`},{`+b+`},{`+a+`}]}`, nil)
			if !repeats(append([]string{"anyOf"}, keysOf(l...)...)) && keysOf(l...)[0] != "$ref" {
				add(fmt.Sprintf("split %d anyOf", mask), `{`+a+`,"anyOf":[{`+b+`}]}`, nil)
			}
			if !repeats(append([]string{"oneOf"}, keysOf(l...)...)) && keysOf(l...)[0] != "$ref" {
				add(fmt.Sprintf("split %d oneOf", mask), `{`+a+`,"oneOf":[{`+b+`}]}`, nil)
			}
		}
	}
	return
}

func wrapJobs(tier string) []job {
	th := tier == "thorough"
	cfg := searchCfg{smallN: 6, fullCap: 150, devBound: 1, devCap: 20, maxPos: 20, policies: []policy{polRR1, polLow, polHigh, polMix}}
	units := 1
	if th {
		cfg.fullCap, cfg.devCap = 1500, 200
		units = 2
	}
	opts := genOpts{UniqueAttempts: 5, IfAttempts: 5, OneOfAttempts: 5, Cutoff: 20000}
	var out []job
	for _, typ := range []string{"integer", "string", "array", "object", "any"} {
		g := wrapGroups[typ]
		n := units
		if typ == "any" {
			n++
		}
		for _, d := range wrapDocs(g, n) {
			s := d.obj()
			inlined := s[:len(s)-1] + "," + wrapDefs + "}"
			out = append(out, job{key: "wrappers of " + s, run: func(c *jctx) {
				if !witnessed(inlined) {
					return // no value: what is reported depends on where it is found
				}
				for _, w := range d.wrappings(c.thorough()) {
					p := refPair{name: w.name + " of " + s, withRef: w.doc, inlined: inlined, back: w.back, mayReject: w.mayReject, mayGiveUp: true, guess: strings.HasPrefix(w.name, `!{"if":%s`) || strings.HasPrefix(w.name, `!{"if":{"$ref"`), onlyValid: strings.Contains(s, `"string"`) && strings.Contains(s, "minLength"), what: [2]string{"on its own", "wrapped (" + w.name + ")"}}
					runPair(c, p, opts, cfg)
				}
			}})
		}
	}
	return out
}

func init() {
	register(&property{
		id:    "C27",
		level: "model_checking",
		rule:  "one case per (schema, wrapping): combinators with one branch or with branches that add nothing, double negation, conditions that always or never hold, containers of one value, references, and the schema split over several branches of allOf; the schema and its wrapping are explored over the same choices and must have the same outcomes",
		jobs:  wrapJobs,
	})
}
