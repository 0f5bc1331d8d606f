package main

// C22: options do what they say, and nothing else.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// optSet maps names of fields of GeneratorOptions to values; booleans are 0 and 1.
type optSet map[string]int

func (s optSet) build() *chaff.GeneratorOptions {
	o := &chaff.GeneratorOptions{Rand: rand.NewRandUtil(1)}
	v := reflect.ValueOf(o).Elem()
	for k, x := range s {
		f := v.FieldByName(k)
		if f.Kind() == reflect.Bool {
			f.SetBool(x != 0)
		} else {
			f.SetInt(int64(x))
		}
	}
	return o
}

func (s optSet) with(k string, v int) optSet {
	out := optSet{k: v}
	for a, b := range s {
		if a != k {
			out[a] = b
		}
	}
	return out
}

func (s optSet) String() string {
	var l []string
	for k, v := range s {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// get returns the value in force: zero means the default.
func (s optSet) get(k string, def int) int {
	if v := s[k]; v != 0 {
		return v
	}
	return def
}

var optValues = map[string][]int{
	"DefaultNumberMinimum": {0, 3, -7, 60}, "DefaultNumberMaximum": {0, 5, 61, 1000},
	"DefaultStringMinLength": {0, 1, 30, 150}, "DefaultStringMaxLength": {0, 1, 4, 160, 300},
	"DefaultArrayMinItems": {0, 1, 3}, "DefaultArrayMaxItems": {0, 1, 2, 5},
	"DefaultObjectMinProperties": {0, 1, 2, 4}, "DefaultObjectMaxProperties": {0, 1, 2, 3, 6},
	"MaximumReferenceDepth": {0, 1, 2, 4, 11}, "BypassCyclicReferenceCheck": {0, 1},
	"SuppressFallbackValues": {0, 1}, "MaximumUniqueGeneratorAttempts": {0, 1, 2, 3}, "MaximumIfAttempts": {0, 1, 2, 3}, "MaximumOneOfAttempts": {0, 1, 2, 3},
	"MaximumGenerationSteps": {0, 1, 2, 4, 7, 500}, "CutoffGenerationSteps": {0, 3, 6, 9, 5000},
}

// optCase is a schema, the options that matter for it and what they make of it.
type optCase struct {
	schema   string
	relevant []string
	// one judges a single output
	one func(o optSet, v interface{}) string
	// all judges the outputs that were found; complete tells whether these are all
	all func(o optSet, vs []interface{}, complete bool) string
	// invalidOK: outputs may break the schema (cut off, depth limit)
	invalidOK bool
	skip      func(o optSet) bool
	// also: options that matter as well and keep their defaults
	also []string
}

func arrLen(v interface{}) int {
	if a, ok := v.([]interface{}); ok {
		return len(a)
	}
	return -1
}

func objLen(v interface{}) int {
	if a, ok := v.(map[string]interface{}); ok {
		return len(a)
	}
	return -1
}

func optNum(v interface{}) float64 {
	n, _ := v.(json.Number)
	f, _ := n.Float64()
	return f
}

func inRange(what string, n, lo, hi int) string {
	if n < lo || n > hi {
		return fmt.Sprintf("%s is %d, the options allow for %d to %d", what, n, lo, hi)
	}
	return ""
}

func extremes(vs []interface{}, size func(interface{}) float64) (lo, hi float64) {
	for i, v := range vs {
		x := size(v)
		if i == 0 || x < lo {
			lo = x
		}
		if i == 0 || x > hi {
			hi = x
		}
	}
	return
}

var numberOpts = []string{"DefaultNumberMinimum", "DefaultNumberMaximum"}
var arrayOpts = []string{"DefaultArrayMinItems", "DefaultArrayMaxItems"}
var objectOpts = []string{"DefaultObjectMinProperties", "DefaultObjectMaxProperties"}
var stringOpts = []string{"DefaultStringMinLength", "DefaultStringMaxLength"}

func numberCase(schema string) optCase {
	rng := func(o optSet) (float64, float64) {
		return float64(o.get("DefaultNumberMinimum", 0)), float64(o.get("DefaultNumberMaximum", 10))
	}
	return optCase{schema: schema, relevant: numberOpts,
		skip: func(o optSet) bool { lo, hi := rng(o); return lo >= hi },
		one: func(o optSet, v interface{}) string {
			lo, hi := rng(o)
			n, ok := v.(json.Number)
			if !ok {
				return "" // another type of a union
			}
			if f, _ := n.Float64(); f < lo || f > hi {
				return fmt.Sprintf("number %s, the default bounds are %g and %g", n, lo, hi)
			}
			return ""
		},
		all: func(o optSet, vs []interface{}, _ bool) string {
			lo, hi := rng(o)
			var nums []interface{}
			for _, v := range vs {
				if _, ok := v.(json.Number); ok {
					nums = append(nums, v)
				}
			}
			if a, b := extremes(nums, optNum); a > lo+0.1*(hi-lo)+1 || b < hi-0.1*(hi-lo)-1 {
				return fmt.Sprintf("numbers only reach from %g to %g, the default bounds are %g and %g", a, b, lo, hi)
			}
			return ""
		}}
}

// stringCase: the schema sets the given bounds (-1: none).
func stringCase(schema string, sMin, sMax int) optCase {
	rng := func(o optSet) (int, int) {
		lo, hi := o.get("DefaultStringMinLength", 0), o.get("DefaultStringMaxLength", 100)
		if sMax >= 0 {
			hi = sMax
			lo = min(lo, hi)
		}
		if sMin >= 0 {
			if lo = sMin; hi < lo {
				hi += lo
			}
		}
		return lo, hi
	}
	return optCase{schema: schema, relevant: stringOpts,
		skip: func(o optSet) bool { lo, hi := rng(o); return lo > hi },
		one: func(o optSet, v interface{}) string {
			lo, hi := rng(o)
			if s, ok := v.(string); ok && hasMarker(v) == "" {
				return inRange("length of the string", utf8.RuneCountInString(s), lo, hi)
			}
			return ""
		}}
}

func arrayCase(schema string, sMin, sMax int) optCase {
	rng := func(o optSet) (int, int) {
		lo, hi := o["DefaultArrayMinItems"], o.get("DefaultArrayMaxItems", 10)
		switch {
		case sMin >= 0 && sMax >= 0:
			return sMin, sMax
		case sMin >= 0:
			return sMin, sMin + hi
		case sMax >= 0:
			return min(lo, sMax), sMax
		}
		return lo, hi
	}
	return optCase{schema: schema, relevant: arrayOpts,
		skip: func(o optSet) bool { lo, hi := rng(o); return lo > hi },
		one: func(o optSet, v interface{}) string {
			lo, hi := rng(o)
			return inRange("length of the array", arrLen(v), lo, hi)
		},
		all: func(o optSet, vs []interface{}, _ bool) string {
			lo, hi := rng(o)
			if sMin >= 0 {
				hi = max(sMin, o.get("DefaultArrayMaxItems", 10))
			}
			if sMax >= 0 {
				hi = sMax
			}
			a, b := extremes(vs, func(v interface{}) float64 { return float64(arrLen(v)) })
			if int(a) > max(lo, 0) || int(b) < hi {
				return fmt.Sprintf("arrays only have %g to %g items, the options allow for %d to %d", a, b, lo, hi)
			}
			return ""
		}}
}

// objectCase: props is the number of properties available (-1: any number).
func objectCase(schema string, props, required, sMin, sMax int) optCase {
	rng := func(o optSet) (int, int) {
		lo, hi := o["DefaultObjectMinProperties"], o.get("DefaultObjectMaxProperties", 10)
		if lo > hi {
			hi = lo
		}
		if sMin >= 0 {
			lo, hi = sMin, max(hi, sMin)+sMin
		}
		if sMax >= 0 {
			lo, hi = min(lo, sMax), sMax
		}
		if props >= 0 {
			lo, hi = min(lo, props), min(hi, props)
		}
		return max(lo, required), max(hi, required)
	}
	return optCase{schema: schema, relevant: append([]string{"SuppressFallbackValues"}, objectOpts...),
		skip: func(o optSet) bool {
			return o["DefaultObjectMinProperties"] > o.get("DefaultObjectMaxProperties", 10)
		},
		one: func(o optSet, v interface{}) string {
			lo, hi := rng(o)
			if s := inRange("number of properties", objLen(v), lo, hi); s != "" {
				return s
			}
			if o["SuppressFallbackValues"] == 1 {
				for k := range v.(map[string]interface{}) {
					if strings.HasPrefix(k, "fallback_") {
						return "fallback values although they are suppressed"
					}
				}
			}
			return ""
		},
		all: func(o optSet, vs []interface{}, _ bool) string {
			lo, hi := rng(o)
			a, b := extremes(vs, func(v interface{}) float64 { return float64(objLen(v)) })
			if int(a) > lo || props >= 0 && sMin < 0 && int(b) < hi {
				return fmt.Sprintf("objects only have %g to %g properties, the options allow for %d to %d", a, b, lo, hi)
			}
			return ""
		}}
}

// walkSteps visits the values of nested arrays in the order of their generation, with the number
// of arrays and of all values started so far: the steps taken are in between.
func walkSteps(v interface{}, arrays, values *int, visit func(arrays, values int, v interface{}) string) string {
	if *values++; arrLen(v) >= 0 {
		*arrays++
	}
	if w := visit(*arrays, *values, v); w != "" {
		return w
	}
	if a, ok := v.([]interface{}); ok {
		for _, x := range a {
			if w := walkSteps(x, arrays, values, visit); w != "" {
				return w
			}
		}
	}
	return ""
}

var optCases = []optCase{
	numberCase(`{"type":"number"}`), numberCase(`{"type":"integer"}`), numberCase(`{"type":["integer","null"]}`), numberCase(`{"anyOf":[{"type":"integer"}]}`), numberCase(`{"$ref":"#/$defs/n","$defs":{"n":{"type":"number"}}}`),
	{schema: `{"type":"integer","minimum":2,"maximum":8}`}, {schema: `{"type":"number","minimum":2.5,"maximum":2.75}`}, {schema: `{"type":"integer","minimum":5}`, relevant: numberOpts}, {schema: `{"type":"number","maximum":500}`, relevant: numberOpts}, {schema: `{"type":"integer","multipleOf":300}`, relevant: numberOpts},
	{schema: `{"type":"integer","exclusiveMinimum":2}`, relevant: numberOpts}, {schema: `{"type":"integer","not":{"minimum":50}}`, relevant: numberOpts}, {schema: `{"type":"integer","if":{"minimum":4},"then":{"multipleOf":2}}`, relevant: append([]string{"MaximumIfAttempts"}, numberOpts...)},
	stringCase(`{"type":"string"}`, -1, -1), stringCase(`{"type":"string","minLength":2}`, 2, -1), stringCase(`{"type":"string","maxLength":5}`, -1, 5), stringCase(`{"type":"string","maxLength":50}`, -1, 50), stringCase(`{"type":"string","minLength":155}`, 155, -1), stringCase(`{"type":"string","minLength":3,"maxLength":4}`, 3, 4), stringCase(`{"type":["string","null"]}`, -1, -1), stringCase(`{"allOf":[{"type":"string"},{"maxLength":40}]}`, -1, 40),
	{schema: `{"type":"string","pattern":"^[ab]{2}$"}`}, {schema: `{"type":"string","format":"ipv4"}`}, {schema: `{"enum":["x","yyyyyyyyyyyy",7]}`}, {schema: `{"type":"string","not":{"const":"a"}}`, relevant: append([]string{"MaximumIfAttempts"}, stringOpts...)},
	arrayCase(`{"type":"array","items":{"type":"null"}}`, -1, -1), arrayCase(`{"type":"array","items":{"type":"null"},"minItems":1}`, 1, -1), arrayCase(`{"type":"array","items":{"type":"null"},"minItems":3}`, 3, -1), arrayCase(`{"type":"array","items":{"type":"null"},"maxItems":2}`, -1, 2), arrayCase(`{"type":"array","items":{"type":"null"},"maxItems":4}`, -1, 4), arrayCase(`{"type":"array","items":{"type":"null"},"minItems":1,"maxItems":3}`, 1, 3), arrayCase(`{"type":"array","items":{"const":1},"maxItems":1}`, -1, 1),
	{schema: `{"prefixItems":[{"const":1},{"const":2}],"items":false}`, relevant: arrayOpts}, {schema: `{"prefixItems":[{"const":1},{"const":2}],"items":{"type":"null"}}`, relevant: arrayOpts}, {schema: `{"type":"array","items":{"type":"null"},"contains":{"type":"null"},"maxItems":2}`, relevant: arrayOpts},
	{schema: `{"type":"array","items":{"enum":[1,2,3,4,5,6]},"uniqueItems":true,"maxItems":2}`, relevant: append([]string{"MaximumUniqueGeneratorAttempts"}, arrayOpts...)}, {schema: `{"type":"array","items":[{"const":1}],"additionalItems":{"const":2},"maxItems":3}`, relevant: arrayOpts}, {schema: `{"type":"array","maxItems":0}`, relevant: arrayOpts},
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3}},"additionalProperties":false}`, 3, 0, -1, -1),
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3}},"required":["b"],"additionalProperties":false}`, 3, 1, -1, -1),
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3},"d":{"const":4}},"maxProperties":2,"additionalProperties":false}`, 4, 0, -1, 2),
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3}},"minProperties":2,"additionalProperties":false}`, 3, 0, 2, -1),
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2}}}`, -1, 0, -1, -1),
	objectCase(`{"type":"object","properties":{"a":{"const":1},"b":{"const":2}},"maxProperties":1}`, -1, 0, -1, 1),
	objectCase(`{"type":"object","additionalProperties":{"const":1}}`, -1, 0, -1, -1), objectCase(`{"type":"object","additionalProperties":{"const":1},"maxProperties":3}`, -1, 0, -1, 3), objectCase(`{"type":"object","additionalProperties":false}`, 0, 0, -1, -1),
	objectCase(`{"type":"object","required":["x","y"]}`, -1, 2, -1, -1),
	{schema: `{"type":"object","patternProperties":{"^[ab]$":{"const":1}},"additionalProperties":false}`, relevant: append([]string{"MaximumUniqueGeneratorAttempts"}, objectOpts...)}, {schema: `{"type":"object","patternProperties":{"^a$":{"const":1}},"additionalProperties":false}`, relevant: append([]string{"MaximumUniqueGeneratorAttempts"}, objectOpts...)},
	{schema: `{"type":"object","properties":{"p":{"const":1}},"patternProperties":{"^[ab]$":{"const":1}},"additionalProperties":false,"maxProperties":2}`, relevant: append([]string{"MaximumUniqueGeneratorAttempts"}, objectOpts...)},
	{schema: `{"type":"boolean"}`}, {schema: `{"type":"null"}`}, {schema: `{"const":{"a":[1,2,3,4]}}`}, {schema: `{"anyOf":[{"const":1},{"const":2}]}`},
	// references: %d of them in a row
	{schema: `{"$ref":"#/$defs/a","$defs":{"a":{"$ref":"#/$defs/b"},"b":{"$ref":"#/$defs/c"},"c":{"const":"end"}}}`, relevant: []string{"MaximumReferenceDepth"}, invalidOK: true, one: func(o optSet, v interface{}) string {
		limited := hasMarker(v) != ""
		if want := o.get("MaximumReferenceDepth", 10) < 3; limited != want {
			return fmt.Sprintf("three references in a row give %v at a maximum depth of %d", v, o.get("MaximumReferenceDepth", 10))
		}
		return ""
	}},
	{schema: `{"$ref":"#/$defs/a","$defs":{"a":{"type":"array","items":{"$ref":"#/$defs/a"},"minItems":1,"maxItems":1}}}`, relevant: []string{"MaximumReferenceDepth", "BypassCyclicReferenceCheck", "MaximumGenerationSteps", "CutoffGenerationSteps"}, invalidOK: true,
		skip: func(o optSet) bool { return o["CutoffGenerationSteps"] != 0 && o["CutoffGenerationSteps"] < 50 },
		one: func(o optSet, v interface{}) string {
			depth := 0
			for arrLen(v) == 1 {
				v, depth = v.([]interface{})[0], depth+1
			}
			s, _ := v.(string)
			if o["BypassCyclicReferenceCheck"] == 0 {
				if depth != 1 || !strings.HasPrefix(s, "Cyclic") && o.get("MaximumReferenceDepth", 10) > 1 {
					return fmt.Sprintf("%d levels and %q although cyclic references are checked", depth, clip(s, 60))
				}
			} else if depth != o.get("MaximumReferenceDepth", 10) || !strings.HasPrefix(s, "Maximum reference") {
				return fmt.Sprintf("%d levels and %q at a maximum depth of %d", depth, clip(s, 60), o.get("MaximumReferenceDepth", 10))
			}
			return ""
		}},
	{schema: `{"type":"object","properties":{"n":{"$ref":"#"}},"required":["n"],"additionalProperties":false}`, relevant: []string{"MaximumReferenceDepth", "BypassCyclicReferenceCheck"}, invalidOK: true, one: func(o optSet, v interface{}) string {
		depth := 0
		for objLen(v) == 1 {
			v, depth = v.(map[string]interface{})["n"], depth+1
		}
		want := o.get("MaximumReferenceDepth", 10) + 1
		if o["BypassCyclicReferenceCheck"] == 0 {
			want = min(want, 2)
		}
		if depth != want {
			return fmt.Sprintf("%d levels, expected %d", depth, want)
		}
		return ""
	}},
	// generation steps: every value is one
	{schema: `{"type":"array","items":{"type":"array","items":{"type":"boolean"},"maxItems":3},"minItems":4,"maxItems":4}`, relevant: []string{"MaximumGenerationSteps", "CutoffGenerationSteps"}, also: arrayOpts, invalidOK: true,
		skip: func(o optSet) bool { return o["CutoffGenerationSteps"] != 0 && o["CutoffGenerationSteps"] < 50 },
		one: func(o optSet, v interface{}) string {
			lim, arrays, values := o.get("MaximumGenerationSteps", 100), 0, 0
			return walkSteps(v, &arrays, &values, func(s, _ int, x interface{}) string {
				if s > lim+1 && s > 1 && arrLen(x) > 0 {
					return fmt.Sprintf("an array that is started in step %d has %d items, only %d steps are allowed before the minimum is due", s, arrLen(x), lim)
				}
				return ""
			})
		},
		all: func(o optSet, vs []interface{}, complete bool) string {
			lim := o.get("MaximumGenerationSteps", 100)
			if _, hi := extremes(vs, func(v interface{}) float64 { return float64(len(js(v))) }); lim >= 100 && hi < 40 {
				return "nothing but small arrays although no limit applies"
			}
			return ""
		}},
	{schema: `{"type":"array","items":{"type":"object","properties":{"a":{"const":1},"b":{"const":2}},"additionalProperties":false},"minItems":4,"maxItems":4}`, relevant: []string{"MaximumGenerationSteps", "CutoffGenerationSteps", "DefaultObjectMinProperties", "DefaultObjectMaxProperties"}, invalidOK: true,
		skip: func(o optSet) bool {
			return o["CutoffGenerationSteps"] != 0 && o["CutoffGenerationSteps"] < 50 || o["DefaultObjectMinProperties"]+o["DefaultObjectMaxProperties"] > 0
		},
		one: func(o optSet, v interface{}) string {
			lim, step := o.get("MaximumGenerationSteps", 100), 1
			for _, x := range v.([]interface{}) {
				if step++; step > lim+1 && objLen(x) > 0 {
					return fmt.Sprintf("an object that is started in step %d has %d properties, only %d steps are allowed before the minimum is due", step, objLen(x), lim)
				}
			}
			return ""
		}},
	{schema: `{"type":"array","items":{"type":"array","items":{"type":"boolean"},"minItems":1,"maxItems":1},"minItems":6,"maxItems":6}`, relevant: []string{"CutoffGenerationSteps", "MaximumGenerationSteps"}, invalidOK: true, one: func(o optSet, v interface{}) string {
		lim, arrays, values := o.get("CutoffGenerationSteps", 2000), 0, 0
		return walkSteps(v, &arrays, &values, func(a, s int, x interface{}) string {
			if a > lim+1 && arrLen(x) >= 0 {
				return fmt.Sprintf("an array is started in step %d although generation is cut off after %d", a, lim)
			}
			if s < lim-1 && x == nil {
				return fmt.Sprintf("cut off in step %d, %d are allowed", s, lim)
			}
			return ""
		})
	}},
}

func runOptCase(c *jctx, oc optCase, cfg searchCfg) {
	relevant := map[string]bool{}
	for _, r := range append(append([]string{}, oc.relevant...), oc.also...) {
		relevant[r] = true
	}
	p := parseQuiet(env{}, oc.schema, nil)
	if p.panicV != "" || p.errs != "" {
		c.key = "options " + oc.schema
		c.report("rejected", p.errs+p.panicV, oc.schema)
		return
	}
	judge := newValidator(mustDecode(oc.schema))
	// every combination of the options that matter
	sets := []optSet{{}}
	for _, r := range oc.relevant {
		var next []optSet
		for _, s := range sets {
			for _, v := range optValues[r] {
				if v == 0 {
					next = append(next, s)
				} else {
					next = append(next, s.with(r, v))
				}
			}
		}
		sets = next
	}
	for _, o := range sets {
		c.key = fmt.Sprintf("options %s | %s", oc.schema, o)
		rep := func(out, why string, ch []uint64) map[string]interface{} {
			return map[string]interface{}{"options": o, "document": oc.schema, "output": out, "why": why, "choices": ch}
		}
		skip := oc.skip != nil && oc.skip(o)
		var others []optSet
		for k, vals := range optValues {
			if relevant[k] {
				continue
			}
			for _, v := range vals {
				small := v != 0 && (k == "MaximumGenerationSteps" || k == "CutoffGenerationSteps") && v < 500
				if v != 0 && !small {
					others = append(others, o.with(k, v))
				}
			}
		}
		sort.Slice(others, func(i, j int) bool { return others[i].String() < others[j].String() })
		memo := map[string]bool{}
		var vals []interface{}
		n, turn := 0, 0
		st := search(env{}, cfg, func() interface{} { return p.gen.Generate(o.build()) }, func(out *outcome, pol policy, devs int) bool {
			n++
			if out.panicV != "" || out.horizon {
				c.report("panic", "panic or no end: "+out.panicV, rep("", out.panicV, out.choices()))
				return false
			}
			b, err := json.Marshal(out.val)
			if err != nil {
				return true
			}
			raw := string(b)
			if !memo[raw] {
				memo[raw] = true
				v, _ := decodeJSON(b)
				vals = append(vals, v)
				if w := judge.check(v); w != "" && !oc.invalidOK && hasMarker(v) == "" && santhosh(oc.schema, raw) != 1 {
					c.report("invalid:"+normKind(w), fmt.Sprintf("output %s\nwhy: %s\noptions %s", clip(raw, 300), w, o), rep(raw, w, out.choices()))
					return false
				}
				if oc.one != nil && !skip {
					if w := oc.one(o, v); w != "" {
						c.report("option", fmt.Sprintf("output %s\nwhy: %s\noptions %s", clip(raw, 300), w, o), rep(raw, w, out.choices()))
						return false
					}
				}
			}
			// the options that do not matter, a few of them for each choice sequence and all of them over time
			for k := 0; k < 2 && len(others) > 0 && len(c.Viols) < 50; k++ {
				x := others[turn%len(others)]
				turn++
				o2 := runCtl(env{}, cfg.exec, out.choices(), pol, func() interface{} { return p.gen.Generate(x.build()) })
				c.St.Executions++
				b2, _ := json.Marshal(o2.val)
				if string(b2) != raw {
					c.report("unrelated-option", fmt.Sprintf("%s with %s, but %s with %s", clip(raw, 200), o, clip(string(b2)+o2.panicV, 200), x), rep(raw, x.String(), out.choices()))
					return false
				}
			}
			return true
		})
		for turn < len(others) && len(c.Viols) == 0 { // all of them at least once
			x := others[turn]
			turn++
			for _, pol := range []policy{polRR1, polMix, polHigh} {
				a := runCtl(env{}, cfg.exec, nil, pol, func() interface{} { return p.gen.Generate(o.build()) })
				b := runCtl(env{}, cfg.exec, nil, pol, func() interface{} { return p.gen.Generate(x.build()) })
				c.St.Executions += 2
				if js(a.val) != js(b.val) {
					c.report("unrelated-option", fmt.Sprintf("%s with %s, but %s with %s", clip(js(a.val), 200), o, clip(js(b.val), 200), x), rep("", x.String(), a.choices()))
				}
			}
		}
		if oc.all != nil && !skip && !c.reported("option") && !c.reported("unrelated-option") {
			if w := oc.all(o, vals, st.Complete); w != "" {
				c.report("no-effect", w+"\noptions "+o.String(), rep("", w, nil))
			}
		}
		c.addSearch(st, len(memo))
		if heartbeat != nil {
			heartbeat()
		}
	}
	if len(c.St.Samples) == 0 {
		c.St.Samples = append(c.St.Samples, fmt.Sprintf("%s: %d combinations of %v, unaffected by the others", oc.schema, len(sets), oc.relevant))
	}
}

// ---- attempts: the budget given is the number of attempts made

type retryCase struct{ option, schema, why string }

var retryCases = []retryCase{
	{"MaximumUniqueGeneratorAttempts", `{"type":"array","items":{"enum":[0,1]},"uniqueItems":true,"minItems":2,"maxItems":2}`, "the second item"},
	{"MaximumUniqueGeneratorAttempts", `{"prefixItems":[{"enum":[0,1]},{"enum":[0,1]}],"items":false,"uniqueItems":true}`, "the second item"},
	{"MaximumOneOfAttempts", `{"oneOf":[{"enum":[0,1]},{"enum":[1,2]}]}`, "the alternatives"},
	{"MaximumIfAttempts", `{"enum":[0,1,2],"if":{"enum":[0,1]},"then":{"const":5}}`, "the condition"},
	{"MaximumIfAttempts", `{"enum":[0,1,2],"not":{"pattern":"^x","type":"string","minLength":1},"if":{"const":0},"then":{"type":"null"}}`, "the condition"},
}

func runBudget(c *jctx, bc retryCase) {
	c.key = "budget " + bc.option + " " + bc.schema
	p := parseQuiet(env{}, bc.schema, nil)
	if p.panicV != "" {
		return
	}
	depth := func(n int) (int, bool) {
		deep := 0
		st := search(env{}, searchCfg{smallN: 6, fullCap: 30000, policies: nil}, func() interface{} { return p.gen.Generate(optSet{bc.option: n}.build()) }, func(o *outcome, _ policy, _ int) bool {
			deep = max(deep, len(o.trace))
			return true
		})
		c.addSearch(st, n)
		return deep, st.Complete
	}
	var d []int
	for n := 1; n <= 5; n++ {
		x, ok := depth(n)
		if !ok {
			break
		}
		d = append(d, x)
	}
	c.extra("budget_lengths_compared", len(d))
	for i := 2; i < len(d); i++ {
		if d[i]-d[i-1] != d[1]-d[0] || d[1] == d[0] {
			c.report("budget", fmt.Sprintf("with 1 to %d attempts the longest runs make %v draws: not one more attempt each", len(d), d), map[string]interface{}{"option": bc.option, "document": bc.schema})
			return
		}
	}
	if len(d) > 0 {
		c.St.Samples = append(c.St.Samples, fmt.Sprintf("%s: longest runs with 1.. attempts: %v draws", bc.schema, d))
	}
}

// ---- parser options

func regexCases(th bool) []job {
	type rx struct {
		name string
		max  uint
		min  uint
		nul  bool
	}
	var variants []rx
	for _, m := range []uint{0, 1, 2, 4} {
		for _, lo := range []uint{0, 1, 2} {
			if lo <= m {
				variants = append(variants, rx{name: fmt.Sprintf("max %d min %d", m, lo), max: m, min: lo})
			}
		}
	}
	variants[0] = rx{name: "none", nul: true}
	for _, lh := range [][2]uint{{2, 1}, {5, 4}} {
		variants = append(variants, rx{name: fmt.Sprintf("max %d min %d", lh[1], lh[0]), max: lh[1], min: lh[0]})
	}
	var out []job
	schemas := []string{`{"type":"object","properties":{"s":{"type":"string","pattern":"^a*$"}},"required":["s"],"patternProperties":{"^b*x$":{"const":1}},"minProperties":2,"maxProperties":2,"additionalProperties":false}`,
		`{"type":"object","properties":{"s":{"anyOf":[{"type":"string","pattern":"^a*$"}]}},"required":["s"],"allOf":[{"patternProperties":{"^b*x$":{"const":1}}}],"minProperties":2,"maxProperties":2}`,
		`{"$ref":"#/$defs/o","$defs":{"o":{"type":"object","properties":{"s":{"type":"string","pattern":"^a*$"}},"required":["s"],"patternProperties":{"^b*x$":{"const":1}},"minProperties":2,"maxProperties":2,"additionalProperties":false}}}`}
	for _, schema := range schemas {
		for _, vs := range variants {
			for _, vp := range variants {
				out = append(out, job{key: fmt.Sprintf("regex options, strings: %s, property names: %s, in %s", vs.name, vp.name, schema), run: func(c *jctx) {
					po := &chaff.ParserOptions{}
					// the type of the options is internal, so they are made by reflection
					set := func(field string, v rx) {
						if v.nul {
							return
						}
						f := reflect.ValueOf(po).Elem().FieldByName(field)
						f.Set(reflect.New(f.Type().Elem()))
						f.Elem().FieldByName("MaxUnboundedRepeatCount").SetUint(uint64(v.max))
						f.Elem().FieldByName("MinUnboundedRepeatCount").SetUint(uint64(v.min))
						f.Elem().FieldByName("Flags").Set(reflect.ValueOf(syntax.PerlX))
					}
					set("RegexStringOptions", vs)
					set("RegexPatternPropertyOptions", vp)
					p := parseQuiet(env{}, schema, po)
					if contrary := vs.max > 0 && vs.min > vs.max || vp.max > 0 && vp.min > vp.max; contrary {
						// no number of repetitions is left: this has to be reported, in whatever way
						c.St.Executions++
						if p.panicV != "" || p.errs == "" {
							c.report("contrary-limits", "not reported as an error: "+p.panicV, schema)
						}
						return
					}
					if p.panicV != "" || p.errs != "" {
						c.report("rejected", p.panicV+p.errs, schema)
						return
					}
					lim := func(v rx) (int, int) {
						if v.nul {
							return 0, 10
						}
						if v.max == 0 {
							return int(v.min), 4096
						}
						return int(v.min), int(v.max)
					}
					sLo, sHi := lim(vs)
					pLo, pHi := lim(vp)
					hit := map[string]bool{}
					cfg := searchCfg{smallN: 12, fullCap: 3000, devBound: 1, devCap: 100, maxPos: 20, exec: execCfg{openQuiet: true}, policies: []policy{polLow, polHigh, polMid, polRR1}}
					st := search(env{}, cfg, func() interface{} { return p.gen.Generate(optSet{}.build()) }, func(o *outcome, _ policy, _ int) bool {
						m, _ := o.val.(map[string]interface{})
						s, _ := m["s"].(string)
						hit[fmt.Sprint("s", len(s))] = true
						if w := inRange("length of the string", len(s), sLo, sHi); w != "" || strings.Trim(s, "a") != "" {
							c.report("string-options", w+" in "+clip(js(o.val), 200), map[string]interface{}{"document": schema, "choices": o.choices()})
							return false
						}
						for k := range m {
							if k == "s" {
								continue
							}
							hit[fmt.Sprint("p", len(k)-1)] = true
							if w := inRange("length of the property name", len(k)-1, pLo, pHi); w != "" || !regexp.MustCompile("^b*x$").MatchString(k) {
								c.report("property-name-options", w+" in "+clip(js(o.val), 200), map[string]interface{}{"document": schema, "choices": o.choices()})
								return false
							}
						}
						return true
					})
					for _, e := range []string{fmt.Sprint("s", sLo), fmt.Sprint("p", pLo), fmt.Sprint("s", min(sHi, 99999)), fmt.Sprint("p", pHi)} {
						if !hit[e] && len(c.Viols) == 0 && !strings.HasSuffix(e, "4096") {
							c.report("no-effect", fmt.Sprintf("no output with %s repetitions (s: string, p: property name), there are %v", e, hit), map[string]interface{}{"document": schema})
						}
					}
					c.addSearch(st, len(hit))
				}})
			}
		}
	}
	// the other fields
	for _, which := range []string{"RegexStringOptions", "RegexPatternPropertyOptions"} {
		for _, field := range []string{"SuppressRandomBytes", "LimitToAscii", ""} {
			out = append(out, job{key: "regex options " + which + " " + field, run: func(c *jctx) {
				schema := `{"type":"object","properties":{"s":{"type":"string","pattern":"^.$"}},"required":["s"],"patternProperties":{"^.%$":{"const":1}},"minProperties":2,"maxProperties":2,"additionalProperties":false}`
				po := &chaff.ParserOptions{}
				for _, w := range []string{"RegexStringOptions", "RegexPatternPropertyOptions"} {
					f := reflect.ValueOf(po).Elem().FieldByName(w)
					f.Set(reflect.New(f.Type().Elem()))
					f.Elem().FieldByName("Flags").Set(reflect.ValueOf(syntax.PerlX))
					if w == which && field != "" {
						f.Elem().FieldByName(field).SetBool(true)
					}
				}
				p := parseQuiet(env{}, schema, po)
				word := regexp.MustCompile(`^[0-9A-Za-z_]$`)
				chars := map[string]map[string]bool{"s": {}, "p": {}}
				cfg := searchCfg{smallN: 140, fullCap: 3000, devBound: 2, devCap: 1500, maxPos: 10, exec: execCfg{openQuiet: true}, policies: []policy{polLow, polHigh, polMid, polRR1, polMix, polMix2, polMix3}}
				st := search(env{}, cfg, func() interface{} { return p.gen.Generate(optSet{}.build()) }, func(o *outcome, _ policy, _ int) bool {
					m, _ := o.val.(map[string]interface{})
					for k, v := range m {
						if k == "s" {
							chars["s"][fmt.Sprint(v)] = true
						} else {
							chars["p"][strings.TrimSuffix(k, "%")] = true
						}
					}
					return true
				})
				c.addSearch(st, len(chars["s"])+len(chars["p"]))
				for part, w := range map[string]string{"s": "RegexStringOptions", "p": "RegexPatternPropertyOptions"} {
					nonWord, nonAscii := "", ""
					for ch := range chars[part] {
						if !word.MatchString(ch) {
							nonWord = ch
						}
						if len(ch) != 1 || ch[0] < ' ' || ch[0] > '~' {
							nonAscii = ch
						}
					}
					on := w == which && field != ""
					switch {
					case on && field == "SuppressRandomBytes" && nonWord != "":
						c.report("suppress", fmt.Sprintf("%q although random bytes are suppressed by %s", nonWord, w), schema)
					case on && field == "LimitToAscii" && nonAscii != "":
						c.report("ascii", fmt.Sprintf("%q although %s limits to printable ASCII characters", nonAscii, w), schema)
					case !on && nonWord == "":
						c.report("cross-talk", fmt.Sprintf("%s.%s is not set and nothing but letters and digits is generated (%d characters)", w, field, len(chars[part])), schema)
					}
				}
			}})
		}
	}
	return out
}

func depthJobs(th bool) []job {
	var out []job
	wraps := []string{`{"type":"array","items":%s}`, `{"type":"object","properties":{"a":%s},"required":["a"]}`, `{"anyOf":[%s]}`, `{"type":"object","additionalProperties":%s}`, `{"prefixItems":[%s]}`}
	for _, w := range wraps {
		for _, limit := range []int{0, 1, 2, 3, 7, 30, 150} {
			out = append(out, job{key: fmt.Sprintf("parse depth %d of %s", limit, w), run: func(c *jctx) {
				eff := limit
				if eff == 0 {
					eff = 100
				}
				per := 1
				levels := func(n int) string {
					s := `{"const":1}`
					for i := 0; i < n; i++ {
						s = fmt.Sprintf(w, s)
					}
					return s
				}
				// how many nested schemas one level takes is learned from the smallest limits
				accepted := func(n, lim int) bool {
					p := parseQuiet(env{}, levels(n), &chaff.ParserOptions{MaxParseDepth: lim})
					c.St.Executions++
					if p.panicV != "" {
						c.report("panic", p.panicV, levels(n))
					}
					return p.errs == ""
				}
				for per < 4 && !accepted(1, per+1) {
					per++
				}
				fits := (eff - 1) / per // levels that are allowed
				for n := max(0, fits-2); n <= fits+2; n++ {
					c.St.States++
					if got := accepted(n, limit); got != (n <= fits) {
						c.report("parse-depth", fmt.Sprintf("%d levels are accepted: %v, with a maximum depth of %d (%d for each level and one for the innermost schema)", n, got, eff, per), map[string]interface{}{"limit": limit, "levels": n, "document": w})
					}
				}
				c.St.Cases++
				c.St.Complete++
				c.St.Outcomes += 2
			}})
		}
	}
	return out
}

func optionJobs(tier string) []job {
	th := tier == "thorough"
	cfg := searchCfg{smallN: 8, fullCap: 120, devBound: 1, devCap: 40, maxPos: 12, policies: []policy{polLow, polHigh, polMid, polRR1, polMix}}
	if th {
		cfg.fullCap, cfg.devCap, cfg.devBound = 2500, 600, 2
	}
	var out []job
	for _, oc := range optCases {
		out = append(out, job{key: "options " + oc.schema, run: func(c *jctx) { runOptCase(c, oc, cfg) }})
	}
	for _, bc := range retryCases {
		out = append(out, job{key: "budget " + bc.option + " " + bc.schema, run: func(c *jctx) { runBudget(c, bc) }})
	}
	out = append(out, regexCases(th)...)
	return append(out, depthJobs(th)...)
}

func init() {
	register(&property{
		id:    "C22",
		level: "model_checking",
		rule:  "One case per schema and combination of values of the options that matter for it: the choice tree is explored, every output is judged by what these options say (and by the schema), and the same choices are replayed with values of every other option, which must change nothing. Retry budgets are read off the longest runs of completely enumerated trees; the regular expression options are enumerated in pairs over all repetition counts; the parse depth over nesting levels around the limit.",
		jobs:  optionJobs,
		notes: []string{"Default bounds are only judged where the schema leaves both ends open (numbers) or where the documentation says what happens (strings, arrays, objects).", "SuppressFallbackValues=false is not distinguishable from unset; only true is judged."},
	})
}
