package main

// C13: recursive schemas terminate within the configured limits.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
)

// A recHolder places a reference somewhere inside a schema.
type recHolder struct {
	name   string
	text   func(r string) string
	exact  bool // the parser has no reason to write the target of the reference in place
	forced bool // every value of the schema contains a value of the referenced schema
	branch int
}

var recHolders = []recHolder{
	{"required", func(r string) string { return `{"type":"object","properties":{"a":` + r + `},"required":["a"]}` }, true, true, 1},
	{"optional", func(r string) string { return `{"type":"object","properties":{"a":` + r + `}}` }, true, false, 1},
	{"two", func(r string) string {
		return `{"type":"object","properties":{"a":` + r + `,"b":` + r + `},"required":["a","b"]}`
	}, true, true, 2},
	{"items", func(r string) string { return `{"type":"array","items":` + r + `,"maxItems":2}` }, true, false, 2},
	{"itemsMin", func(r string) string { return `{"type":"array","items":` + r + `,"minItems":1,"maxItems":2}` }, true, true, 1},
	{"prefix", func(r string) string {
		return `{"type":"array","prefixItems":[` + r + `,{"type":"null"}],"items":false,"minItems":1}`
	}, true, true, 1},
	{"tupleRest", func(r string) string {
		return `{"type":"array","items":[{"type":"null"}],"additionalItems":` + r + `,"minItems":2,"maxItems":3}`
	}, true, true, 1},
	{"unevaluatedItems", func(r string) string {
		return `{"type":"array","prefixItems":[{"type":"null"}],"unevaluatedItems":` + r + `,"minItems":2,"maxItems":3}`
	}, true, true, 1},
	{"contains", func(r string) string { return `{"type":"array","contains":` + r + `,"maxItems":2}` }, false, true, 1},
	{"unique", func(r string) string { return `{"type":"array","items":` + r + `,"uniqueItems":true,"maxItems":2}` }, true, false, 2},
	{"additional", func(r string) string {
		return `{"type":"object","additionalProperties":` + r + `,"minProperties":1,"maxProperties":2}`
	}, true, true, 1},
	{"pattern", func(r string) string {
		return `{"type":"object","patternProperties":{"^a$":` + r + `},"additionalProperties":false,"minProperties":1}`
	}, true, true, 1},
	{"anyOfProp", func(r string) string {
		return `{"type":"object","properties":{"a":{"anyOf":[` + r + `,{"type":"null"}]}},"required":["a"]}`
	}, false, false, 1},
	{"oneOfProp", func(r string) string {
		return `{"type":"object","properties":{"a":{"oneOf":[` + r + `,{"type":"null"}]}},"required":["a"]}`
	}, false, false, 1},
	{"allOfProp", func(r string) string {
		return `{"type":"object","properties":{"a":{"allOf":[` + r + `]}},"required":["a"]}`
	}, false, true, 1},
	{"ifElse", func(r string) string {
		return `{"type":"object","properties":{"a":{"if":{"type":"null"},"then":{"type":"null"},"else":` + r + `}},"required":["a"]}`
	}, false, false, 1},
	{"ifCond", func(r string) string {
		return `{"type":"object","properties":{"a":{"type":["object","array","null"],"if":` + r + `,"then":{"type":["object","array"]},"else":{"type":"null"}}},"required":["a"]}`
	}, false, false, 1},
	{"not", func(r string) string {
		return `{"type":"object","properties":{"a":{"type":["object","array","null"],"not":` + r + `}},"required":["a"]}`
	}, false, false, 1},
	{"anyOf", func(r string) string {
		return `{"anyOf":[{"type":"null"},{"type":"object","properties":{"a":` + r + `},"required":["a"]}]}`
	}, false, false, 1},
	{"oneOf", func(r string) string {
		return `{"oneOf":[{"type":"null"},{"type":"array","items":` + r + `,"minItems":1,"maxItems":2}]}`
	}, false, false, 1},
}

// recExpect: not every schema can be negated, and validators for conditions
// are compiled for the dialect without legacy tuples.
func recExpect(hs ...recHolder) int {
	not, legacy, validator := false, false, false
	for _, h := range hs {
		switch h.name {
		case "not":
			not = true
		case "oneOfProp", "oneOf", "ifElse", "ifCond":
			validator = true
		case "tupleRest":
			legacy = true
		}
	}
	if (not && len(hs) > 1) || (legacy && (validator || not)) {
		return expAny
	}
	return expParse
}

func ref(p string) string { return `{"$ref":"` + p + `"}` }

func addKw(s string, kw string) string {
	return strings.TrimSuffix(s, "}") + "," + kw + "}"
}

// depthOf counts nested containers; give-up messages and leaves count nothing.
func depthOf(v interface{}) int {
	d := 0
	switch x := v.(type) {
	case []interface{}:
		for _, y := range x {
			if e := depthOf(y); e > d {
				d = e
			}
		}
		return d + 1
	case map[string]interface{}:
		for _, y := range x {
			if e := depthOf(y); e > d {
				d = e
			}
		}
		return d + 1
	}
	return 0
}

func containersOf(v interface{}) int {
	n := 0
	switch x := v.(type) {
	case []interface{}:
		n = 1
		for _, y := range x {
			n += containersOf(y)
		}
	case map[string]interface{}:
		n = 1
		for _, y := range x {
			n += containersOf(y)
		}
	}
	return n
}

func refDepth(n int) int {
	if n == 0 {
		return 10
	}
	return n
}

// nestingOracle: reached containers never exceed what the allowed nested references can contribute.
func nestingOracle(o genOpts, cycle int, exact bool, rootRef int) func(v interface{}, raw string) string {
	levels := cycle + 1 // a merged schema writes every schema of the cycle in place once
	n := refDepth(o.RefDepth)
	limit := func(refs int) int {
		if exact {
			return refs + 1 - rootRef
		}
		return levels*(refs+1) + 1
	}
	max := limit(n)
	if !o.Bypass {
		if m := limit(cycle); m < max {
			max = m
		}
	}
	return func(v interface{}, raw string) string {
		if d := depthOf(v); d > max {
			return fmt.Sprintf("nested %d deep with a reference depth of %d (cycle of %d references, bypass %v): at most %d expected", d, n, cycle, o.Bypass, max)
		}
		return ""
	}
}

func recCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	// Validity cases: the cutoff is out of reach, executions with too many retries are given up by the explorer.
	base := genOpts{Cutoff: 200000, MaxSteps: 60, UniqueAttempts: 3, IfAttempts: 4, OneOfAttempts: 4, ArrMax: 2, ObjMax: 2}
	srch := searchCfg{smallN: 4, fullCap: 60, devBound: 1, devCap: 20, exec: execCfg{horizon: 3000}}
	if th {
		srch = searchCfg{smallN: 6, fullCap: 800, devBound: 2, devCap: 150, exec: execCfg{horizon: 20000}}
	}
	depths := []int{1, 2, 3, 5, 0}
	opt := func(n int, bypass bool) genOpts {
		o := base
		o.RefDepth, o.Bypass = n, bypass
		return o
	}
	// one reference back to itself, at the root or below $defs
	for _, h := range recHolders {
		for _, n := range depths {
			for _, bypass := range []bool{false, true} {
				if h.branch > 1 && bypass && refDepth(n) > 5 && !th {
					continue
				}
				o := opt(n, bypass)
				for root, s := range []string{h.text(ref("#")), `{"$ref":"#/$defs/t","$defs":{"t":` + h.text(ref("#/$defs/t")) + `}}`} {
					c := scase{truncOK: true, family: "self-" + h.name, schema: s, opts: o, search: srch, expect: expParse, always: nestingOracle(o, 1, h.exact, root)}
					if h.forced && h.exact && h.name != "pattern" { // the same name twice: the second value replaces the first
						// the limit is what ends the recursion: it ends exactly there
						want := refDepth(n) + 1 - root
						if !bypass {
							want = 2 - root
						}
						up := c.always
						c.always = func(v interface{}, raw string) string {
							if w := up(v, raw); w != "" {
								return w
							}
							if d := depthOf(v); d != want {
								return fmt.Sprintf("nested %d deep, the reference depth allows %d", d, want)
							}
							return ""
						}
					}
					out = append(out, c)
				}
			}
		}
	}
	// two and three schemas referring to one another
	k := 0
	for i, a := range recHolders {
		for j, b := range recHolders {
			k++
			n := []int{1, 2, 3}[k%3]
			bypass := k%2 == 0
			for v := 0; v < 2; v++ {
				if v == 1 {
					if !th {
						break
					}
					n, bypass = []int{2, 3, 4}[k%3], !bypass
				}
				o := opt(n, bypass)
				exact := a.exact && b.exact
				s := addKw(a.text(ref("#/$defs/b")), `"$defs":{"b":`+b.text(ref("#"))+`}`)
				out = append(out, scase{truncOK: true, family: "pair-" + a.name + "-" + b.name, schema: s, opts: o, search: srch, expect: recExpect(a, b), always: nestingOracle(o, 2, exact, 0)})
				c := recHolders[(i*3+j*5+1)%len(recHolders)]
				if !th && k%2 == 0 {
					continue
				}
				exact = exact && c.exact
				s = addKw(a.text(ref("#/definitions/b")), `"definitions":{"b":`+b.text(ref("#/definitions/c"))+`,"c":`+c.text(ref("#"))+`}`)
				out = append(out, scase{truncOK: true, family: "triple-" + a.name + "-" + b.name + "-" + c.name, schema: s, opts: o, search: srch, expect: recExpect(a, b, c), always: nestingOracle(o, 3, exact, 0)})
			}
		}
	}
	// schemas merged from several recursive ones
	for _, s := range []string{
		`{"allOf":[{"$ref":"#/$defs/x"},{"$ref":"#/$defs/y"}],"$defs":{"x":{"type":"object","properties":{"a":{"$ref":"#/$defs/x"},"p":{"type":"integer","minimum":1,"maximum":2}},"required":["p"]},"y":{"type":"object","properties":{"a":{"$ref":"#/$defs/y"},"q":{"type":"boolean"}},"required":["q"]}}}`,
		`{"allOf":[{"$ref":"#/$defs/x"},{"$ref":"#/$defs/y"}],"$defs":{"x":{"type":"object","properties":{"a":{"$ref":"#/$defs/y"},"p":{"type":"integer","minimum":1,"maximum":2}},"required":["p"]},"y":{"type":"object","properties":{"a":{"$ref":"#/$defs/x"},"q":{"type":"boolean"}},"required":["q"]}}}`,
		`{"allOf":[{"$ref":"#/$defs/x"},{"properties":{"a":{"$ref":"#/$defs/y"}}}],"$defs":{"x":{"type":"object","properties":{"a":{"$ref":"#/$defs/x"},"p":{"type":"integer","minimum":1,"maximum":2}},"required":["p"]},"y":{"type":"object","properties":{"q":{"type":"boolean"}},"required":["q"]}}}`,
		`{"allOf":[{"$ref":"#/$defs/x"},{"items":{"$ref":"#/$defs/y"}}],"$defs":{"x":{"type":"array","items":{"$ref":"#/$defs/x"},"maxItems":2},"y":{"type":"array","minItems":1}}}`,
		`{"type":"object","properties":{"a":{"allOf":[{"$ref":"#"},{"properties":{"p":{"const":1}},"required":["p"]}]}}}`,
		`{"type":"object","properties":{"a":{"allOf":[{"$ref":"#"},{"required":["p"]}]},"p":{"type":"null"}},"required":["a"]}`,
		`{"allOf":[{"$ref":"#/$defs/x"}],"$defs":{"x":{"type":"object","properties":{"a":{"allOf":[{"$ref":"#/$defs/y"},{"$ref":"#/$defs/x"}]}}},"y":{"type":"object","properties":{"b":{"const":1}},"required":["b"]}}}`,
		`{"$ref":"#/$defs/t","$defs":{"t":{"oneOf":[{"type":"integer","minimum":0,"maximum":2},{"type":"object","properties":{"op":{"enum":["+","-"]},"l":{"$ref":"#/$defs/t"},"r":{"$ref":"#/$defs/t"}},"required":["op","l","r"],"additionalProperties":false}]}}}`,
		`{"$ref":"#/$defs/t","$defs":{"t":{"anyOf":[{"type":"boolean"},{"type":"array","items":{"$ref":"#/$defs/t"},"maxItems":2},{"type":"object","additionalProperties":{"$ref":"#/$defs/t"},"maxProperties":2}]}}}`,
		`{"type":"object","properties":{"v":{"type":"integer","minimum":0,"maximum":1},"next":{"oneOf":[{"$ref":"#"},{"type":"null"}]}},"required":["v","next"],"additionalProperties":false}`,
		`{"type":"object","properties":{"k":{"enum":["leaf","node"]},"c":{"type":"array","items":{"$ref":"#"},"maxItems":2}},"required":["k"],"additionalProperties":false,"if":{"properties":{"k":{"const":"node"}}},"then":{"required":["c"]},"else":{"properties":{"c":{"maxItems":0}}}}`,
	} {
		for _, n := range []int{1, 2, 3} {
			for _, bypass := range []bool{false, true} {
				o := opt(n, bypass)
				out = append(out, scase{truncOK: true, family: "merged", schema: s, opts: o, search: srch, always: nestingOracle(o, 2, false, 0)})
			}
		}
	}
	// references that lead nowhere but to themselves: termination only
	for _, s := range []string{
		`{"$ref":"#"}`, `{"allOf":[{"$ref":"#"}]}`, `{"anyOf":[{"$ref":"#"}]}`, `{"oneOf":[{"$ref":"#"}]}`, `{"not":{"$ref":"#"}}`, `{"not":{"not":{"$ref":"#"}}}`,
		`{"if":{"$ref":"#"},"then":{"type":"string"}}`, `{"if":{"type":"string"},"then":{"$ref":"#"}}`, `{"if":{"type":"string"},"else":{"$ref":"#"}}`, `{"if":{"not":{"$ref":"#"}},"then":{"type":"null"}}`,
		`{"allOf":[{"not":{"$ref":"#"}}]}`, `{"not":{"allOf":[{"$ref":"#"}]}}`, `{"not":{"anyOf":[{"$ref":"#"}]}}`, `{"not":{"if":{"$ref":"#"}}}`, `{"oneOf":[{"$ref":"#"},{"not":{"$ref":"#"}}]}`,
		`{"$ref":"#/$defs/a","$defs":{"a":{"$ref":"#/$defs/b"},"b":{"$ref":"#/$defs/a"}}}`,
		`{"$ref":"#/$defs/a","$defs":{"a":{"$ref":"#/$defs/a"}}}`,
		`{"$ref":"#/$defs/a","$defs":{"a":{"$ref":"#/$defs/b"},"b":{"$ref":"#/$defs/c"},"c":{"$ref":"#/$defs/a"}}}`,
		`{"not":{"$ref":"#/$defs/a"},"$defs":{"a":{"not":{"$ref":"#/$defs/b"}},"b":{"not":{"$ref":"#/$defs/a"}}}}`,
		`{"allOf":[{"$ref":"#/$defs/a"},{"$ref":"#/$defs/b"}],"$defs":{"a":{"allOf":[{"$ref":"#/$defs/b"}]},"b":{"allOf":[{"$ref":"#/$defs/a"}]}}}`,
		`{"anyOf":[{"$ref":"#/$defs/a"},{"$ref":"#/$defs/b"}],"$defs":{"a":{"oneOf":[{"$ref":"#/$defs/b"},{"$ref":"#"}]},"b":{"anyOf":[{"$ref":"#/$defs/a"}]}}}`,
		`{"$ref":"#/properties/a","properties":{"a":{"$ref":"#/properties/b"},"b":{"$ref":"#/properties/a"}}}`,
		`{"type":"object","properties":{"a":{"not":{"properties":{"a":{"$ref":"#/properties/a"}}}}}}`,
		`{"not":{"properties":{"a":{"$ref":"#"}}}}`, `{"not":{"items":{"$ref":"#"}}}`, `{"not":{"contains":{"$ref":"#"}}}`, `{"not":{"additionalProperties":{"$ref":"#"}}}`,
		`{"if":{"properties":{"a":{"$ref":"#"}},"required":["a"]},"then":{"$ref":"#"},"else":{"$ref":"#/if"}}`,
		`{"$id":"http://x.test/s","$ref":"http://x.test/s"}`, `{"$id":"http://x.test/s","allOf":[{"$ref":"http://x.test/s#"}]}`,
	} {
		for _, n := range []int{1, 3, 0} {
			for _, bypass := range []bool{false, true} {
				for _, mp := range []int{0, 5, 30} {
					o := opt(n, bypass)
					o.Cutoff = 2000
					srch := srch
					srch.exec.horizon = 3000000
					srch.fullCap, srch.devCap = 30, 10
					out = append(out, scase{family: "loop", schema: s, opts: o, search: srch, noVal: true, maxParse: mp, always: nestingOracle(o, 3, false, 0)})
				}
			}
		}
	}
	// a branch that loops is no value: the others decide
	for _, x := range [][2]string{
		{`{"anyOf":[{"$ref":"#"},{"type":"boolean"}]}`, `{"type":"boolean"}`},
		{`{"anyOf":[{"type":"boolean"},{"$ref":"#/$defs/a"}],"$defs":{"a":{"anyOf":[{"$ref":"#"},{"type":"null"}]}}}`, `{"type":["boolean","null"]}`},
		{`{"anyOf":[{"allOf":[{"$ref":"#"}]},{"type":"integer","minimum":1,"maximum":2}]}`, `{"type":"integer","minimum":1,"maximum":2}`},
	} {
		for _, n := range []int{1, 2, 0} {
			for _, bypass := range []bool{false, true} {
				out = append(out, scase{truncOK: true, family: "loop-branch", schema: x[0], judge: x[1], opts: opt(n, bypass), search: srch, expect: expParse, fair: true})
			}
		}
	}
	out = append(out, docRecCases(th, opt, srch)...)
	out = append(out, cutoffCases(th, srch)...)
	out = append(out, minimizeCases(th, srch)...)
	out = append(out, parseDepthCases(th, srch)...)
	return out
}

var recDocDir = sync.OnceValue(func() string {
	dir, err := os.MkdirTemp("", "recdocs-")
	mustNil(err)
	dir, err = filepath.EvalSymlinks(dir)
	mustNil(err)
	for i, h := range recHolders {
		for _, to := range []string{"main.json", "self"} {
			target := to
			if to == "self" {
				target = "#/$defs/t"
			}
			text := h.text(ref(target))
			if to == "self" {
				text = `{"type":"null","$defs":{"t":` + text + `}}`
			}
			mustNil(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d-%s", i, strings.TrimSuffix(to, ".json")+".json")), []byte(text), 0o600))
		}
		// back by way of another document
		mustNil(os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d-via.json", i)), []byte(h.text(ref("0-main.json"))), 0o600))
	}
	return dir
})

// docRecCases: recursion through several documents.
func docRecCases(th bool, opt func(int, bool) genOpts, srch searchCfg) []scase {
	var out []scase
	dir := recDocDir()
	k := 0
	for i, a := range recHolders {
		for j, b := range recHolders {
			for _, shape := range []struct {
				name, to      string
				cycle, inside int
			}{
				{"pair", fmt.Sprintf("%d-main.json", j), 2, 0},
				{"triple", fmt.Sprintf("%d-via.json", j), 3, 0},
				{"part", fmt.Sprintf("%d-self.json#/$defs/t", j), 1, 0},
			} {
				k++
				n, bypass := []int{1, 2, 3, 4}[k%4], k%3 != 0
				if !th && (!a.exact || !b.exact || (i+2*j)%3 != 0) {
					continue
				}
				o := opt(n, bypass)
				exact := a.exact && b.exact && shape.name != "part"
				c := scase{truncOK: true, family: "docs-" + shape.name + "-" + a.name + "-" + b.name, schema: a.text(ref(shape.to)), noVal: true, opts: o, search: srch, always: nestingOracle(o, shape.cycle, exact, 0),
					popts: &chaff.ParserOptions{RelativeTo: "file://" + dir + "/main.json", DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}}}
				if exact && a.forced && b.forced && a.name != "pattern" && b.name != "pattern" && recExpect(a, b) == expParse {
					c.expect = expParse
					want := n + 1
					if !bypass {
						want = min(want, shape.cycle+1)
					}
					c.always = func(v interface{}, raw string) string {
						if d := depthOf(v); d != want {
							return fmt.Sprintf("nested %d deep, the reference depth of %d (bypass %v) allows %d", d, n, bypass, want)
						}
						return ""
					}
				}
				out = append(out, c)
			}
		}
	}
	return out
}

// cutoffCases: unbounded recursion is ended by the cutoff, and only by it.
func cutoffCases(th bool, srch searchCfg) []scase {
	var out []scase
	cut := []int{1, 2, 3, 5, 20, 100}
	if th {
		cut = append(cut, 8, 50, 400, 2000)
	}
	for _, h := range recHolders {
		for _, c := range cut {
			for _, ms := range []int{3, 100000} {
				o := genOpts{Cutoff: c, MaxSteps: ms, RefDepth: 5000, Bypass: true, UniqueAttempts: 3, IfAttempts: 4, OneOfAttempts: 4, ArrMax: 2, ObjMax: 2}
				lo := 0
				if h.forced && h.exact && h.name != "pattern" { // the same name twice: the second value replaces the first
					lo = c/4 - 1 // a level costs the reference, the container and at most two leaves
				}
				sc := scase{family: "cutoff-" + h.name, schema: h.text(ref("#")), opts: o, search: srch, expect: expParse, noVal: true}
				sc.search.exec.horizon = 400000
				sc.always = func(v interface{}, raw string) string {
					n := containersOf(v)
					if n > c {
						return fmt.Sprintf("%d containers were generated although generation is to stop after %d steps", n, c)
					}
					if n < lo {
						return fmt.Sprintf("only %d containers were generated within %d steps", n, c)
					}
					return ""
				}
				out = append(out, sc)
			}
		}
	}
	return out
}

// minimizeCases: the members generated after the step limit take the least effort their schema allows.
func minimizeCases(th bool, srch searchCfg) []scase {
	var out []scase
	members := []struct {
		name, text string
		min        int
	}{
		{"array", `{"type":"array","items":{"type":"null"},"maxItems":4}`, 0},
		{"array-min", `{"type":"array","items":{"type":"null"},"minItems":1,"maxItems":4}`, 1},
		{"object", `{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}}}`, 0},
		{"object-required", `{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}},"required":["b"]}`, 1},
		{"object-min", `{"type":"object","properties":{"a":{"type":"null"},"b":{"type":"null"},"c":{"type":"null"}},"minProperties":2}`, 2},
		{"map", `{"type":"object","additionalProperties":{"type":"null"},"maxProperties":4}`, 0},
		{"pattern", `{"type":"object","patternProperties":{"^[a-c]$":{"type":"null"}},"additionalProperties":false,"minProperties":1}`, 1},
		{"tuple", `{"type":"array","prefixItems":[{"type":"null"},{"type":"null"}],"unevaluatedItems":{"type":"null"},"maxItems":4}`, -1},
	}
	size := func(v interface{}) int {
		switch x := v.(type) {
		case []interface{}:
			return len(x)
		case map[string]interface{}:
			return len(x)
		}
		return -1
	}
	for _, m := range members {
		for _, k := range []int{4, 8} {
			for _, limit := range []int{1, 2, 3, 5, 8, 12} {
				if m.min < 0 {
					m.min = 2
				}
				o := genOpts{MaxSteps: limit, Cutoff: 100000, ArrMax: 4, ObjMax: 4}
				schema := `{"type":"array","prefixItems":[` + strings.TrimSuffix(strings.Repeat(m.text+",", k), ",") + `],"items":false,"minItems":` + fmt.Sprint(k) + `}`
				always := func(v interface{}, raw string) string {
					steps := 1
					for i, e := range v.([]interface{}) {
						steps++
						if n := size(e); steps > limit && n > m.min {
							return fmt.Sprintf("member %d has %d parts after at least %d steps, beyond the limit of %d steps it should have %d", i, n, steps, limit, m.min)
						}
						steps += size(e)
					}
					return ""
				}
				// what follows when the members have used up the steps
				for _, tail := range []string{
					`{"type":"array","prefixItems":[` + strings.TrimSuffix(strings.Repeat(m.text+",", k), ",") + `],"items":{"type":"null"},"maxItems":` + fmt.Sprint(k+4) + `}`,
					`{"type":"array","items":[` + strings.TrimSuffix(strings.Repeat(m.text+",", k), ",") + `],"additionalItems":{"type":"null"},"maxItems":` + fmt.Sprint(k+4) + `}`,
					`{"type":"array","prefixItems":[` + strings.TrimSuffix(strings.Repeat(m.text+",", k), ",") + `],"unevaluatedItems":{"type":"null"},"maxItems":` + fmt.Sprint(k+4) + `}`,
					`{"type":"array","contains":` + m.text + `,"minContains":` + fmt.Sprint(k) + `,"items":{"type":["null","array","object"]},"maxItems":` + fmt.Sprint(k+4) + `}`,
				} {
					out = append(out, scase{family: "minimize-tail-" + m.name, schema: tail, opts: o, search: srch, expect: expParse, always: func(v interface{}, raw string) string {
						l := v.([]interface{})
						steps := 1
						for _, e := range l[:min(k, len(l))] {
							steps += 1 + size(e)
						}
						if steps > limit && len(l) > k {
							return fmt.Sprintf("%d members beyond the %d that have to be there, which took at least %d steps, beyond the limit of %d", len(l)-k, k, steps, limit)
						}
						return ""
					}})
				}
				var rs []reach
				if 2 <= limit-2 {
					rs = append(rs, reach{"more than the minimum before the step limit", func(v interface{}, raw string) bool {
						return size(v.([]interface{})[0]) > m.min
					}})
				}
				out = append(out, scase{family: "minimize-" + m.name, schema: schema, opts: o, search: srch, expect: expParse, always: always, reach: rs})
			}
		}
	}
	// recursion whose only end is that effort is reduced
	for _, h := range recHolders {
		if h.forced || h.name == "not" || h.name == "ifCond" {
			continue
		}
		for _, limit := range []int{1, 3, 10, 25} {
			o := genOpts{MaxSteps: limit, Cutoff: 1000000, RefDepth: 5000, Bypass: true, UniqueAttempts: 2, IfAttempts: 3, OneOfAttempts: 3, ArrMax: 2, ObjMax: 2}
			if h.name != "optional" && h.name != "items" && h.name != "unique" && h.name != "contains" {
				continue // alternatives are chosen, not reduced
			}
			max := 3 * (limit + 2)
			sc := scase{family: "minimize-rec-" + h.name, schema: h.text(ref("#")), opts: o, search: srch, expect: expParse}
			sc.search.exec.horizon = 400000
			sc.always = func(v interface{}, raw string) string {
				if n := containersOf(v); n > max {
					return fmt.Sprintf("%d containers were generated although effort is to be reduced after %d steps", n, limit)
				}
				return ""
			}
			out = append(out, sc)
		}
	}
	return out
}

// parseDepthCases: schemas deeper than the parse depth are reported, never cut silently.
func parseDepthCases(th bool, srch searchCfg) []scase {
	var out []scase
	nest := map[string]func(s string) string{
		"property": func(s string) string { return `{"type":"object","properties":{"a":` + s + `},"required":["a"]}` },
		"items":    func(s string) string { return `{"type":"array","items":` + s + `,"minItems":1,"maxItems":1}` },
		"prefix":   func(s string) string { return `{"type":"array","prefixItems":[` + s + `],"items":false,"minItems":1}` },
		"allOf":    func(s string) string { return `{"allOf":[` + s + `]}` },
		"allOf2":   func(s string) string { return `{"allOf":[{"not":{"const":7}},` + s + `]}` },
		"anyOf":    func(s string) string { return `{"anyOf":[` + s + `]}` },
		"oneOf":    func(s string) string { return `{"oneOf":[` + s + `]}` },
		"notnot":   func(s string) string { return `{"not":{"not":` + s + `}}` },
		"then":     func(s string) string { return `{"if":{},"then":` + s + `}` },
		"else":     func(s string) string { return `{"if":{"type":"null"},"then":{"const":1},"else":` + s + `}` },
		"map": func(s string) string {
			return `{"type":"object","additionalProperties":` + s + `,"minProperties":1,"maxProperties":1}`
		},
		"pattern": func(s string) string {
			return `{"type":"object","patternProperties":{"^k$":` + s + `},"additionalProperties":false,"minProperties":1}`
		},
		"contains": func(s string) string { return `{"type":"array","contains":` + s + `,"minItems":1,"maxItems":1}` },
		"rest": func(s string) string {
			return `{"type":"array","items":[{"type":"null"}],"additionalItems":` + s + `,"minItems":2,"maxItems":2}`
		},
		"allOfProp": func(s string) string {
			return `{"allOf":[{"type":"object","properties":{"a":` + s + `},"required":["a"]},{"properties":{"a":{}}}]}`
		},
	}
	names := []string{"property", "items", "prefix", "allOf", "allOf2", "anyOf", "oneOf", "notnot", "then", "else", "map", "pattern", "contains", "rest", "allOfProp"}
	pd := srch
	pd.exec.horizon = 400000
	limits := []int{3, 5, 8, 20}
	depths := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 19, 20, 21, 30}
	for _, n := range names {
		for _, l := range limits {
			for _, d := range depths {
				if d > 2*l+2 || ((n == "else" || n == "oneOf" || n == "then" || n == "anyOf") && d > 8) {
					continue
				}
				s := `{"const":5}`
				for i := 0; i < d; i++ {
					s = nest[n](s)
				}
				c := scase{family: "parse-depth-" + n, schema: s, maxParse: l, opts: genOpts{IfAttempts: 3, OneOfAttempts: 3, Cutoff: 100000, RefDepth: 50}, search: pd}
				// one level costs one parse step in the plain positions
				if d+1 <= l && (n == "property" || n == "items" || n == "prefix" || n == "map" || n == "pattern" || n == "rest") {
					c.expect = expParse
				}
				if d+1 > l && (n == "property" || n == "items" || n == "prefix" || n == "map" || n == "pattern" || n == "rest") {
					c.expect = expReject
				}
				out = append(out, c)
			}
		}
	}
	// the default limit
	for _, n := range []string{"property", "items"} {
		for _, d := range []int{50, 98, 99, 100, 120} {
			s := `{"const":5}`
			for i := 0; i < d; i++ {
				s = nest[n](s)
			}
			c := scase{family: "parse-depth-default-" + n, schema: s, opts: genOpts{Cutoff: 100000}, search: srch}
			c.expect = expParse
			if d+1 > 100 {
				c.expect = expReject
			}
			out = append(out, c)
		}
	}
	return out
}

func init() {
	register(&property{
		id: "C13", level: "model_checking",
		rule: "one case per recursive shape (20 places of a reference, all pairs, half of the pairs extended to triples in the quick tier, merged shapes, pure loops), limit and bypass setting; non-trivial: a distinct generated value of a case",
		jobs: func(tier string) []job { return caseJobs(recCases(tier), 6) },
	})
}
