package main

// C17: generation is independent of history and leaves its inputs alone.

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

var historySchemas = []string{
	`{"const":{"a":[1,{"b":null}],"c":"x"}}`, `{"const":[1,[2,3]]}`, `{"const":"s"}`, `{"const":null}`,
	`{"enum":[{"a":1},[1,2],"x",null]}`, `{"enum":[{"a":{"b":[1]}},{"a":{"b":[2]}}]}`, `{"enum":[[1,[2]]]}`,
	`{"type":"object","properties":{"a":{"const":{"k":[1]}},"b":{"enum":[[1],{"z":1}]}},"required":["a","b"]}`,
	`{"type":"array","items":{"const":[1,2]},"minItems":2,"maxItems":3}`, `{"prefixItems":[{"const":{"a":1}},{"enum":[[1],[2]]}],"items":false}`,
	`{"allOf":[{"properties":{"a":{"const":{"q":1}}}},{"required":["a"]}]}`, `{"anyOf":[{"const":{"q":1}},{"const":[1]}]}`, `{"oneOf":[{"const":{"q":1}},{"enum":[[1],[2,{}]]}]}`,
	`{"enum":[{"a":1},{"a":2},{"a":3}],"not":{"const":{"a":1}}}`, `{"enum":[{"a":1},{"a":2}],"if":{"const":{"a":1}},"then":{"const":{"a":1}}}`,
	`{"$ref":"#/$defs/c","$defs":{"c":{"const":{"deep":{"er":[{}]}}}}}`, `{"contains":{"const":[{"a":1}]},"maxItems":2}`,
	`{"type":"object","properties":{"a":{"$ref":"#"},"n":{"type":"integer","minimum":0,"maximum":9}},"required":["n"]}`,
	`{"type":"object","properties":{"a":{"$ref":"#"}},"required":["a"]}`, `{"type":"array","items":{"$ref":"#"},"maxItems":2}`,
	`{"$ref":"#/$defs/a","$defs":{"a":{"properties":{"x":{"$ref":"#/$defs/b"}},"required":["x"]},"b":{"anyOf":[{"type":"null"},{"$ref":"#/$defs/a"}]}}}`,
	`{"anyOf":[{"type":"boolean"},{"type":"array","items":{"$ref":"#"},"minItems":1,"maxItems":2}]}`,
	`{"type":"array","items":{"type":"integer","minimum":0,"maximum":5},"uniqueItems":true,"minItems":2}`, `{"type":"array","items":{"enum":[1,2]},"uniqueItems":true,"minItems":3}`,
	`{"type":"object","properties":{"a":{},"b":{"type":"string","maxLength":3},"c":{"type":"null"}}}`, `{"type":"object","patternProperties":{"^[ab]$":{"type":"boolean"}},"additionalProperties":false}`, `{"additionalProperties":{"type":"integer","minimum":0,"maximum":3},"minProperties":2}`,
	`{"type":"object","properties":{"a":{"const":1},"b":{"const":2},"c":{"const":3},"d":{"const":4}},"minProperties":2}`,
	`{"type":"string","pattern":"^[a-d]{2,3}$"}`, `{"type":"string","minLength":2,"maxLength":5}`, `{"type":"string","format":"hostname"}`, `{"type":"string","format":"ipv4"}`, `{"type":["string","null","boolean"]}`,
	`{"type":"number","minimum":0.5,"maximum":2.5}`, `{"type":"integer","multipleOf":3,"minimum":0,"maximum":100}`, `{"type":"integer","minimum":0,"maximum":9,"not":{"enum":[1,2,3]}}`,
	`{"oneOf":[{"enum":[1,2]},{"enum":[2,3]}]}`, `{"type":"object","properties":{"k":{"enum":["a","b"]},"v":{}},"required":["k"],"if":{"properties":{"k":{"const":"a"}}},"then":{"properties":{"v":{"type":"null"}},"required":["v"]},"else":{"properties":{"v":{"type":"boolean"}}}}`,
	`{"type":"string","not":{"pattern":"^a"},"maxLength":2}`, `{}`, `{"type":"nope"}`,
}

type heldValue struct {
	v       interface{}
	snap    string
	mutated bool
}

// world is the state a history acts on.
type world struct {
	schema string
	bytes  []byte
	popts  *chaff.ParserOptions
	gens   []chaff.RootGenerator
	opts   []*chaff.GeneratorOptions
	held   []*heldValue
	used   []string // what the last operations did
}

func historyOpts() []*chaff.GeneratorOptions {
	return []*chaff.GeneratorOptions{
		{Rand: rand.NewRandUtil(1), MaximumIfAttempts: 4, MaximumOneOfAttempts: 4, MaximumUniqueGeneratorAttempts: 4, DefaultArrayMaxItems: 3, DefaultObjectMaxProperties: 3, CutoffGenerationSteps: 400},
		{Rand: rand.NewRandUtil(2), MaximumIfAttempts: 1, MaximumOneOfAttempts: 1, MaximumUniqueGeneratorAttempts: 1, DefaultArrayMaxItems: 1, DefaultObjectMaxProperties: 1, CutoffGenerationSteps: 3, MaximumGenerationSteps: 1, MaximumReferenceDepth: 1},
		{Rand: rand.NewRandUtil(3), MaximumReferenceDepth: 3, BypassCyclicReferenceCheck: true, DefaultArrayMaxItems: 3, DefaultObjectMinProperties: 1, DefaultArrayMinItems: 1, CutoffGenerationSteps: 200, MaximumGenerationSteps: 50},
	}
}

func newWorld(schema string) *world {
	w := &world{schema: schema, bytes: []byte(schema), popts: &chaff.ParserOptions{}, opts: historyOpts()}
	for i := 0; i < 2; i++ {
		g, _ := chaff.ParseSchema(w.bytes, w.popts)
		w.gens = append(w.gens, g)
	}
	return w
}

// genOn runs one controlled generation and returns its JSON.
func (w *world) genOn(g, o int, pol policy, horizon int, keep bool) string {
	out := runCtl(env{0, 0}, execCfg{horizon: horizon}, nil, pol, func() interface{} { return w.gens[g].Generate(w.opts[o]) })
	if out.horizon {
		return fmt.Sprintf("cut off after %d draws", horizon)
	}
	if out.panicV != "" {
		return "panic: " + out.panicV
	}
	b, err := json.Marshal(out.val)
	if err != nil {
		return "unserialisable: " + err.Error()
	}
	if keep {
		w.held = append(w.held, &heldValue{v: out.val, snap: string(b)})
	}
	return string(b)
}

// scramble overwrites every map and slice reachable from v.
func scramble(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, y := range x {
			scramble(y)
			x[k] = "overwritten"
		}
		x["added"] = "overwritten"
	case []interface{}:
		for i, y := range x {
			scramble(y)
			x[i] = "overwritten"
		}
	}
}

const historyHorizon = 20000

type historyOp struct {
	name string
	do   func(w *world)
}

var historyOps = []historyOp{
	{"generate, low draws", func(w *world) { w.genOn(0, 0, polLow, historyHorizon, true) }},
	{"generate, high draws", func(w *world) { w.genOn(0, 0, polHigh, historyHorizon, true) }},
	{"generate with tight limits", func(w *world) { w.genOn(0, 1, polMix, historyHorizon, true) }},
	{"generate with bypassed cycle check", func(w *world) { w.genOn(0, 2, polRR1, historyHorizon, true) }},
	{"generate from a second generator", func(w *world) { w.genOn(1, 0, polMix, historyHorizon, true) }},
	{"overwrite the latest value", func(w *world) {
		if n := len(w.held); n > 0 {
			w.held[n-1].mutated = true
			scramble(w.held[n-1].v)
		}
	}},
	{"print and generate with defaults", func(w *world) {
		runQuiet(env{0, 0}, func() { _ = w.gens[0].String() })
		runCtl(env{0, 0}, execCfg{horizon: historyHorizon}, nil, polMix, func() interface{} { return w.gens[0].GenerateWithDefaults() })
	}},
	{"parse the schema again and another one", func(w *world) {
		runQuiet(env{0, 0}, func() {
			_, _ = chaff.ParseSchema(w.bytes, w.popts)
			_, _ = chaff.ParseSchema([]byte(`{"$id":"http://x.test/o","const":{"other":1},"$defs":{"a":{"type":"null"},"c":{"type":"null"}}}`), w.popts)
		})
	}},
	{"overwrite the schema bytes", func(w *world) {
		for i := range w.bytes {
			w.bytes[i] = 'x'
		}
	}},
	{"generate, aborted by a panicking random source", func(w *world) { w.genOn(0, 0, polMix, 2, false) }},
}

var historyProbes = []struct {
	o   int
	pol policy
}{{0, polLow}, {0, polHigh}, {0, polMix}, {2, polRR1}, {1, polLow}, {0, polRR2}}

func optsEqual(a, b []*chaff.GeneratorOptions) string {
	for i := range a {
		x, y := *a[i], *b[i]
		if x.Rand == nil || x.Rand.Rand == nil {
			return fmt.Sprintf("the random source of options %d was removed", i)
		}
		x.Rand, y.Rand = nil, nil
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("options %d changed from %+v to %+v", i, y, x)
		}
	}
	return ""
}

type histReplay struct {
	Schema  string   `json:"schema"`
	History []string `json:"history"`
	Why     string   `json:"why"`
}

func historyJob(schema string, depth int) job {
	return job{key: "history " + schema, run: func(c *jctx) {
		c.key = "history " + schema
		c.St.Cases++
		base := make([]string, len(historyProbes))
		fresh := historyOpts()
		for i, p := range historyProbes {
			w := newWorldQuiet(schema)
			base[i] = w.genOn(0, p.o, p.pol, historyHorizon, false)
			if strings.HasPrefix(base[i], "panic") || strings.HasPrefix(base[i], "unserial") {
				return // C16
			}
		}
		outcomes := map[string]bool{}
		for _, b := range base {
			outcomes[b] = true
		}
		var rec func(h []int)
		check := func(h []int) {
			w := newWorldQuiet(schema)
			names := []string{}
			for _, op := range h {
				historyOps[op].do(w)
				names = append(names, historyOps[op].name)
			}
			c.St.Executions += len(h) + len(historyProbes)
			c.St.States++
			c.St.Transitions += len(h)
			if len(h) > c.St.MaxDepth {
				c.St.MaxDepth = len(h)
			}
			fail := func(kind, why string) {
				c.report(kind, why+"\nhistory: "+strings.Join(names, "; "), histReplay{schema, names, why})
			}
			scribbled := false
			for _, op := range h {
				scribbled = scribbled || historyOps[op].name == "overwrite the schema bytes"
			}
			if !scribbled && string(w.bytes) != schema {
				fail("schema-modified", "the schema bytes were modified: "+string(w.bytes))
			}
			if w.popts == nil || !reflect.DeepEqual(*w.popts, chaff.ParserOptions{}) {
				fail("parser-options-modified", fmt.Sprintf("the parser options were modified: %+v", *w.popts))
			}
			for i, p := range historyProbes {
				if got := w.genOn(0, p.o, p.pol, historyHorizon, true); got != base[i] {
					fail("history-dependent", fmt.Sprintf("with the same draws and options (probe %d) the generator now yields %s instead of %s", i, clip(got, 200), clip(base[i], 200)))
				}
				if i < 2 && len(w.gens) > 1 {
					if got := w.genOn(1, p.o, p.pol, historyHorizon, false); got != base[i] {
						fail("other-generator", fmt.Sprintf("a second generator of the schema now yields %s instead of %s", clip(got, 200), clip(base[i], 200)))
					}
				}
			}
			if why := optsEqual(w.opts, fresh); why != "" {
				fail("options-modified", why)
			}
			for i, hv := range w.held {
				if hv.mutated {
					continue
				}
				if b, _ := json.Marshal(hv.v); string(b) != hv.snap {
					fail("value-changed", fmt.Sprintf("value %d was %s when it was returned and is %s now", i, clip(hv.snap, 200), clip(string(b), 200)))
				}
			}
			// values share nothing: overwriting all but one leaves that one alone
			for i := range w.held {
				if w.held[i].mutated || i > 3 {
					continue
				}
				for j := range w.held {
					if j != i && !w.held[j].mutated {
						scramble(w.held[j].v)
						w.held[j].mutated = true
					}
				}
				if b, _ := json.Marshal(w.held[i].v); string(b) != w.held[i].snap {
					fail("value-shared", fmt.Sprintf("overwriting other values changed the value %s to %s", clip(w.held[i].snap, 200), clip(string(b), 200)))
				}
				break
			}
			if heartbeat != nil {
				heartbeat()
			}
		}
		rec = func(h []int) {
			check(h)
			if len(h) == depth {
				return
			}
			for op := range historyOps {
				rec(append(append([]int(nil), h...), op))
			}
		}
		rec(nil)
		c.St.Complete++
		c.St.Outcomes += len(outcomes)
		c.St.Samples = append(c.St.Samples, clip(schema, 100)+" => "+clip(base[2], 100))
	}}
}

func newWorldQuiet(schema string) (w *world) {
	runQuiet(env{0, 0}, func() { w = newWorld(schema) })
	return
}

func init() {
	register(&property{
		id:    "C17",
		level: "model_checking",
		rule:  "Every history of the operation alphabet up to the depth (3 quick, 5 thorough) is executed against freshly parsed generators; afterwards the generator must answer fixed probes (same draws, same options) exactly as a fresh one, options and schema bytes must be unchanged, and values already returned must neither have changed nor share parts with others.",
		jobs: func(tier string) []job {
			depth := 3
			if tier == "thorough" {
				depth = 5
			}
			var out []job
			for _, s := range historySchemas {
				out = append(out, historyJob(s, depth))
			}
			return out
		},
		notes: []string{"Formats whose values are drawn from the present time (dates) are left out: the clock is not controlled.", "Random sources inside regular expression generators are controlled like all others; their internal state is not part of the outcome."},
	})
}
