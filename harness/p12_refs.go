package main

// C12: a local reference behaves like the schema it points to. Every case is a
// pair of documents: one with the reference, one with the target in its place.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

var refTargets = []string{
	`{"type":"integer","minimum":1,"maximum":4}`, `{"type":"string","enum":["a","bb"]}`, `{"const":"k"}`, `{"enum":[1,"a",null]}`, `{"type":"boolean"}`, `{"type":"null"}`,
	`{"type":["integer","null"],"minimum":0,"maximum":2}`, `{"type":"number","minimum":0,"maximum":3,"multipleOf":0.5}`, `{"type":"string","minLength":1,"maxLength":2}`,
	`{"type":"object","properties":{"a":{"type":"integer","minimum":0,"maximum":2}},"required":["a"],"additionalProperties":false}`,
	`{"type":"array","items":{"type":"integer","minimum":0,"maximum":2},"minItems":1,"maxItems":3}`,
	`{"type":"array","prefixItems":[{"const":1},{"enum":["x","y"]}],"minItems":2,"maxItems":2}`,
	`{"anyOf":[{"const":1},{"type":"string","enum":["s","t"]}]}`, `{"oneOf":[{"type":"integer","minimum":1,"maximum":3},{"const":"z"}]}`,
	`{"allOf":[{"type":"integer","minimum":1},{"maximum":3}]}`, `{"type":"integer","minimum":0,"maximum":4,"not":{"const":2}}`,
	`{"type":"integer","minimum":0,"maximum":4,"if":{"minimum":2},"then":{"multipleOf":2},"else":{"const":1}}`,
	`{"type":"object","properties":{"a":{"$ref":"#/$defs/w"}},"required":["a"],"additionalProperties":false}`, `{"type":"array","items":{"$ref":"#/$defs/w"},"minItems":1,"maxItems":2}`, `{"$ref":"#/$defs/w"}`, `{"anyOf":[{"$ref":"#/$defs/w"},{"const":"k"}]}`, `{"allOf":[{"$ref":"#/$defs/w"},{"maximum":2}]}`,
	`{"type":["integer","string"],"minimum":0,"maximum":2,"maxLength":1,"not":{"$ref":"#/$defs/w"}}`, `{"enum":[0,1,2,3,5],"if":{"$ref":"#/$defs/w"},"then":{"maximum":2},"else":{"const":5}}`,
	`{"type":"object","patternProperties":{"^[ab]$":{"type":"null"}},"minProperties":1,"maxProperties":1,"additionalProperties":false}`, `{"type":"object","additionalProperties":{"const":1},"minProperties":1,"maxProperties":1}`,
	`{"type":"array","items":[{"const":1},{"const":2}],"additionalItems":false,"minItems":1}`, `{"type":"array","contains":{"const":1},"items":{"enum":[1,2]},"minItems":1,"maxItems":2}`, `{"type":"array","uniqueItems":true,"items":{"enum":[1,2,3]},"minItems":1,"maxItems":2}`,
	`{"type":"string","pattern":"^[ab]{1,2}$"}`, `{"enum":[{"$ref":"#/$defs/none"},[1]]}`, `{"const":{"a":{"$ref":"x"}}}`,
}

// where the reference stands; %s is the reference (or the target)
var refContexts = []string{
	`%s`,
	`{"type":"object","properties":{"i":%s},"required":["i"],"additionalProperties":false}`,
	`{"type":"array","items":%s,"minItems":1,"maxItems":2}`,
	`{"type":"array","prefixItems":[{"const":0},%s],"minItems":2,"maxItems":2}`,
	`{"type":"array","items":[%s],"additionalItems":false,"minItems":1}`,
	`{"type":"array","items":[{"const":0}],"additionalItems":%s,"minItems":2,"maxItems":3}`,
	`{"type":"array","prefixItems":[{"const":0}],"unevaluatedItems":%s,"minItems":2,"maxItems":3}`,
	`{"type":"array","items":{"type":["integer","string","null"],"enum":[5,"q",null]},"contains":%s,"minItems":1,"maxItems":2}`,
	`{"type":"object","additionalProperties":%s,"minProperties":1,"maxProperties":2}`,
	`{"type":"object","patternProperties":{"^[ab]$":%s},"minProperties":1,"maxProperties":1,"additionalProperties":false}`,
	`{"anyOf":[%s,{"const":"other"}]}`,
	`{"oneOf":[{"const":"other"},%s]}`,
	`{"allOf":[%s]}`,
	`{"allOf":[{"title":"t"},%s]}`,
	`{"type":["integer","string","null","boolean"],"enum":[0,1,2,3,"a","bb","k","s",null,true],"not":%s}`,
	`{"enum":[0,1,2,3,"a","bb","k","s",null,true,"n"],"if":%s,"then":{"enum":[1,2,"a","k",null,"s",true]},"else":{"enum":[0,3,"n"]}}`,
	`{"enum":["a",1],"if":{"const":7},"else":%s}`,
	`{"if":{"const":7},"then":{"const":7},"else":%s}`,
	`{"type":"object","properties":{"n":{"type":"array","items":{"anyOf":[%s]},"minItems":1,"maxItems":1}},"required":["n"],"additionalProperties":false}`,
}

// refHolder says where the target is kept: keys added to the root document (root
// properties are merged), and the reference that leads there.
type refHolder struct {
	name, ref    string
	root, prop   string // %s = target
	rootId       string
	unsupported  bool // go-chaff documents that it does not support this
	onlyTargets  int  // use only this many targets (0 = all)
	thoroughOnly bool
	ownW         bool // the target stands below an $id and next to a "w" of its own, the one of the root is another
}

var refHolders = []refHolder{
	{name: "$defs", ref: `#/$defs/x`, root: `"$defs":{"x":%s}`},
	{name: "definitions", ref: `#/definitions/x`, root: `"definitions":{"x":%s}`},
	{name: "chain2", ref: `#/$defs/y`, root: `"$defs":{"y":{"$ref":"#/$defs/x"},"x":%s}`},
	{name: "chain3", ref: `#/definitions/z`, root: `"$defs":{"y":{"$ref":"#/$defs/x"},"x":%s},"definitions":{"z":{"$ref":"#/$defs/y"}}`, onlyTargets: 8},
	{name: "property", ref: `#/properties/q`, prop: `"q":%s`},
	{name: "nested property", ref: `#/properties/q/properties/r`, prop: `"q":{"type":"object","properties":{"r":%s}}`},
	{name: "items", ref: `#/properties/q/items`, prop: `"q":{"type":"array","items":%s,"maxItems":1}`},
	{name: "prefixItems", ref: `#/properties/q/prefixItems/1`, prop: `"q":{"type":"array","prefixItems":[{"const":0},%s],"maxItems":2}`},
	{name: "tuple items", ref: `#/properties/q/items/0`, prop: `"q":{"type":"array","items":[%s,{"const":0}],"maxItems":2}`},
	{name: "additionalItems", ref: `#/properties/q/additionalItems`, prop: `"q":{"type":"array","items":[{"const":0}],"additionalItems":%s,"maxItems":2}`},
	{name: "unevaluatedItems", ref: `#/properties/q/unevaluatedItems`, prop: `"q":{"type":"array","prefixItems":[{"const":0}],"unevaluatedItems":%s,"maxItems":2}`},
	{name: "contains", ref: `#/properties/q/contains`, prop: `"q":{"type":"array","contains":%s,"items":{"enum":[1,"a"]},"maxItems":2}`, onlyTargets: 4},
	{name: "additionalProperties", ref: `#/properties/q/additionalProperties`, prop: `"q":{"type":"object","additionalProperties":%s,"maxProperties":1}`},
	{name: "patternProperties", ref: `#/properties/q/patternProperties/^a$`, prop: `"q":{"type":"object","patternProperties":{"^a$":%s},"maxProperties":1}`},
	{name: "anyOf", ref: `#/properties/q/anyOf/0`, prop: `"q":{"anyOf":[%s,{"const":9}]}`},
	{name: "anyOf with siblings", ref: `#/properties/q/anyOf/0`, prop: `"q":{"anyOf":[%s,{"const":1}],"enum":[1,"a","k"]}`, onlyTargets: 4},
	{name: "oneOf", ref: `#/properties/q/oneOf/1`, prop: `"q":{"oneOf":[{"const":9},%s]}`},
	{name: "not", ref: `#/properties/q/not`, prop: `"q":{"enum":[9,8],"not":%s}`, onlyTargets: 10},
	{name: "if", ref: `#/properties/q/if`, prop: `"q":{"enum":[9,8],"if":%s,"then":{"enum":[9,8]}}`, onlyTargets: 10},
	{name: "then", ref: `#/properties/r/then`, prop: `"q":{"if":{"const":9},"then":{"type":"integer"},"else":{"enum":[1,"a"]}},"r":{"if":{"const":"never"},"then":%s,"else":{"type":"string","maxLength":1}}`, onlyTargets: 2},
	{name: "else", ref: `#/properties/q/else`, prop: `"q":{"if":{"const":9},"then":{"const":9},"else":%s}`, onlyTargets: 10},
	{name: "then direct", ref: `#/properties/q/then`, prop: `"q":{"if":{"enum":[1,"a","k"]},"then":%s,"else":{"const":1}}`, onlyTargets: 10},
	{name: "nested $defs", ref: `#/$defs/x/$defs/y`, root: `"$defs":{"x":{"type":"string","$defs":{"y":%s}}}`},
	{name: "nested definitions", ref: `#/definitions/x/definitions/y`, root: `"definitions":{"x":{"type":"string","definitions":{"y":%s}}}`},
	{name: "$defs property", ref: `#/$defs/x/properties/y`, root: `"$defs":{"x":{"type":"object","properties":{"y":%s}}}`},
	{name: "$defs items", ref: `#/$defs/x/items`, root: `"$defs":{"x":{"type":"array","items":%s}}`},
	{name: "$defs in property", ref: `#/properties/q/$defs/x`, prop: `"q":{"type":"integer","minimum":0,"maximum":1,"$defs":{"x":%s}}`},
	{name: "escaped slash", ref: `#/$defs/a~1b`, root: `"$defs":{"a/b":%s}`},
	{name: "escaped tilde", ref: `#/$defs/a~0b`, root: `"$defs":{"a~b":%s}`},
	{name: "percent", ref: `#/$defs/a%20b`, root: `"$defs":{"a b":%s}`},
	{name: "escaped tilde one", ref: `#/$defs/a~01b`, root: `"$defs":{"a~1b":%s}`},
	{name: "numeric name", ref: `#/$defs/0`, root: `"$defs":{"0":%s}`},
	{name: "keyword name", ref: `#/$defs/properties`, root: `"$defs":{"properties":%s}`},
	{name: "dotted name", ref: `#/$defs/a.b-c`, root: `"$defs":{"a.b-c":%s}`},
	{name: "similar names", ref: `#/$defs/a_b`, root: `"$defs":{"a-b":{"const":"wrong"},"a_b":%s,"a.b":{"const":"wrong"}}`},
	{name: "$id", ref: `x.json`, root: `"$defs":{"x":{"$id":"x.json",` + ownDefs + `},"allOf":[%s]}}`, rootId: idRoot, ownW: true},
	{name: "$id plain", ref: `http://verif.invalid/x.json`, root: `"$defs":{"x":%s}`, rootId: idRoot, ownW: true},
	{name: "$id path", ref: `x.json#/$defs/y`, root: `"$defs":{"y":{"const":"wrong"},"x":{"$id":"x.json",` + ownDefs + `,"y":%s}}}`, rootId: idRoot, ownW: true},
	{name: "$id nested", ref: `dir/inner.json`, root: `"$defs":{"o":{"$id":"dir/outer.json","$defs":{"x":{"$id":"inner.json",` + ownDefs + `},"allOf":[%s]}}},"p":{"$id":"inner.json","const":"wrong"}}`, rootId: idRoot, ownW: true},
	{name: "$id nested absolute", ref: `http://verif.invalid/dir/inner.json#/$defs/y`, root: `"$defs":{"o":{"$id":"dir/outer.json","$defs":{"x":{"$id":"inner.json",` + ownDefs + `,"y":%s}}}}}`, rootId: idRoot, ownW: true},
	{name: "$id nested, not in a directory", ref: `http://verif.invalid/inner.json`, root: `"$defs":{"o":{"$id":"dir/outer.json","$defs":{"x":{"$id":"/inner.json",` + ownDefs + `},"allOf":[%s]}}}}`, rootId: idRoot, ownW: true},
	{name: "$id reference from inside", ref: `dir/outer.json#/$defs/z`, root: `"$defs":{"o":{"$id":"dir/outer.json","$defs":{"z":{"$ref":"inner.json"},"x":{"$id":"inner.json",` + ownDefs + `},"allOf":[%s]}}}}`, rootId: idRoot, ownW: true},
	{name: "$id local reference", ref: `#/$defs/o/$defs/z`, root: `"$defs":{"x":{"const":"wrong"},"o":{"$id":"dir/outer.json",` + ownDefs + `,"z":{"$ref":"#/$defs/x"},"x":%s}}}`, rootId: idRoot, ownW: true},
	{name: "$id local reference without root id", ref: `o.json#/$defs/z`, root: `"$defs":{"x":{"const":"wrong"},"o":{"$id":"o.json",` + ownDefs + `,"z":{"$ref":"#/$defs/x"},"x":%s}}}`, ownW: true},
	{name: "$id urn", ref: `urn:verif:o#/$defs/z`, root: `"$defs":{"x":{"const":"wrong"},"o":{"$id":"urn:verif:o",` + ownDefs + `,"z":{"$ref":"urn:verif:o#/$defs/x"},"x":%s}}}`, ownW: true},
	{name: "$id to the root", ref: `o.json#/$defs/z`, root: `"$defs":{"x":%s,"o":{"$id":"o.json","$defs":{"x":{"const":"wrong"},"z":{"$ref":"root.json#/$defs/x"}}}}`, rootId: idRoot},
	{name: "$id to another", ref: `a/o.json#/$defs/z`, root: `"$defs":{"u":{"$id":"b/p.json",` + ownDefs + `,"y":%s}},"o":{"$id":"a/o.json","$defs":{"z":{"$ref":"../b/p.json#/$defs/y"}}}}`, rootId: idRoot, ownW: true},
	{name: "tuple in $defs", ref: `#/$defs/x/items/1`, root: `"$defs":{"x":{"type":"array","items":[{"const":0},%s]}}`},
	{name: "prefixItems in $defs", ref: `#/$defs/x/prefixItems/0`, root: `"$defs":{"x":{"type":"array","prefixItems":[%s,{"const":0}]}}`},
	{name: "combination in $defs", ref: `#/$defs/x/oneOf/0`, root: `"$defs":{"x":{"oneOf":[%s,{"const":9}]}}`},
}

const (
	idRoot  = `http://verif.invalid/root.json`
	wTarget = `{"type":"integer","minimum":1,"maximum":3}`
	ownDefs = `"$defs":{"w":` + wTarget // not closed
)

type refPair struct {
	name, withRef, inlined string
	parse                  func() parsed // how withRef is parsed, nil: as a single document
	deep                   bool          // recursive: ends at the depth limit, whose message names the documents

	// what else a pair may be (C26)
	back func(string) string // outputs of withRef as outputs of inlined
	gen  func(g chaff.RootGenerator) interface{}
	what [2]string // how to call the two

	mayReject bool // it may be reported that the library cannot handle withRef
	mayGiveUp bool // give-up messages are no difference
	guess     bool // values are only found by chance
	onlyValid bool // outcomes hold text that is not made of choices: they are not compared as sets
}

func withId(t string) string {
	return `{"$id":"http://verif.invalid/x.json",` + ownDefs + `},` + t[1:]
}

func refDoc(h refHolder, ctx, repl, target, w string) string {
	props := `"p":` + strings.Replace(ctx, "%s", repl, 1)
	if h.prop != "" {
		props += "," + strings.Replace(h.prop, "%s", target, 1)
	}
	s := `{`
	if h.rootId != "" {
		s += `"$id":"` + h.rootId + `",`
	}
	s += `"type":"object","properties":{` + props + `},"required":["p"],"additionalProperties":false`
	if root := strings.Replace(h.root, "%s", target, 1); strings.HasPrefix(root, `"$defs":{`) {
		s += `,"$defs":{"w":` + w + `,` + root[len(`"$defs":{`):]
	} else {
		s += `,"$defs":{"w":` + w + `}`
		if root != "" {
			s += "," + root
		}
	}
	return s + "}"
}

func (h refHolder) pair(ctx, target string) refPair {
	t := target
	if h.name == "$id plain" {
		t = withId(target)
	}
	w := wTarget
	if h.ownW {
		w = `{"const":"wrong"}`
	}
	return refPair{
		name:    h.name + " " + ctx + " <- " + target,
		withRef: refDoc(h, ctx, `{"$ref":`+js(h.ref)+`}`, t, w),
		inlined: refDoc(h, ctx, target, t, wTarget),
	}
}

type pairReplay struct {
	WithRef, Inlined string
	Schema           string  `json:"schema"`
	Opts             genOpts `json:"opts"`
	Choices          []uint64
	Out, OutInlined  string
	Why              string
}

// runPair explores both documents with the same choices.
var depthMarker = regexp.MustCompile(`"Maximum reference resolution depth of \d+ exceeded: [^"]*"`)

func runPair(c *jctx, p refPair, opts genOpts, cfg searchCfg) {
	c.key = "ref " + p.name
	if p.parse == nil {
		p.parse = func() parsed { return parseQuiet(env{}, p.withRef, nil) }
	}
	if p.what[0] == "" {
		p.what = [2]string{"with the target in place", "with the reference"}
	}
	if p.gen == nil {
		p.gen = func(g chaff.RootGenerator) interface{} { return g.Generate(opts.options()) }
	}
	rep := pairReplay{WithRef: p.withRef, Inlined: p.inlined, Schema: p.withRef, Opts: opts}
	a := p.parse()
	b := parseQuiet(env{}, p.inlined, nil)
	if a.panicV != "" {
		c.report("parse-panic:"+normKind(a.panicV), "ParseSchema panicked: "+a.panicV+"\n"+p.withRef, rep)
		return
	}
	if b.panicV != "" { // another property's business
		c.St.Rejected++
		c.St.Cases++
		return
	}
	if b.errs != "" && a.errs != "" {
		c.St.Rejected++
		c.St.Cases++
		return
	}
	if b.errs == "" && a.errs != "" {
		if p.mayReject {
			c.St.Rejected++
			c.extra("reported_as_unsupported", 1)
			c.St.Cases++
			return
		}
		if strings.Contains(a.errs, "not supported") || (strings.Contains(p.withRef, `"items":[`) && strings.Contains(a.errs, "is not valid against metaschema")) {
			c.St.Rejected++
			c.extra("reported_as_unsupported", 1)
			c.St.Cases++
			return
		}
		rep.Why = a.errs
		c.report("reference-rejected", "the schema "+p.what[0]+" is accepted, the one "+p.what[1]+" is not: "+a.errs+"\n"+p.withRef, rep)
		c.St.Cases++
		return
	}
	if b.errs != "" {
		rep.Why = b.errs
		c.report("reference-hides-error", "the schema "+p.what[0]+" is rejected ("+b.errs+"), the one "+p.what[1]+" is accepted\n"+p.withRef, rep)
		c.St.Cases++
		return
	}
	judge := newValidator(mustDecode(p.inlined))
	generateB := func() interface{} { return b.gen.Generate(opts.options()) }
	render := func(o *outcome) string {
		if o.horizon {
			return "<no termination>"
		}
		if o.panicV != "" {
			return "<panic " + normKind(o.panicV) + ">"
		}
		j, err := json.Marshal(o.val)
		if err != nil {
			return "<unserialisable>"
		}
		if p.what[1] != "with the reference" {
			return js(withoutMarkers(o.val, j))
		}
		if p.deep {
			return depthMarker.ReplaceAllString(string(j), `"<depth limit>"`)
		}
		return string(j)
	}
	outA, outB := map[string][]uint64{}, map[string][]uint64{}
	memo := map[string]string{}
	differs := false
	var firstDiff []uint64
	st := search(env{}, cfg, func() interface{} { return p.gen(a.gen) }, func(o *outcome, pol policy, devs int) bool {
		ra := render(o)
		if p.back != nil {
			ra = p.back(ra)
		}
		if _, ok := outA[ra]; !ok {
			outA[ra] = o.choices()
		}
		// Judge the outcome itself.
		if _, ok := memo[ra]; !ok {
			memo[ra] = ""
			if strings.HasPrefix(ra, "<") {
				memo[ra] = ra
			} else if v, err := decodeJSON([]byte(ra)); err == nil {
				if m := hasMarker(v); strings.HasPrefix(m, "Unresolvable") || strings.HasPrefix(m, "Cyclic") || strings.HasPrefix(m, "Maximum reference") {
					memo[ra] = m
				} else if m == "" && !strings.Contains(ra, "<depth limit>") {
					if w := judge.check(v); w != "" && santhosh(p.inlined, ra) != 1 {
						memo[ra] = w
					}
				}
			}
		}
		if w := memo[ra]; w != "" {
			rep.Choices, rep.Out, rep.Why = o.choices(), ra, w
			c.report("invalid:"+normKind(w), fmt.Sprintf("output %s\nwhy: %s\nschema %s\nchoices %v", clip(ra, 300), w, clip(p.withRef, 500), clipChoices(o.choices())), rep)
			return true
		}
		o2 := runCtl(env{}, cfg.exec, o.choices(), pol, generateB)
		c.St.Executions++
		rb := render(&o2)
		if _, ok := outB[rb]; !ok {
			outB[rb] = o2.choices()
		}
		if ra != rb && !differs {
			differs = true
			firstDiff = o.choices()
		}
		return true
	})
	c.addSearch(st, len(outA))
	if len(c.St.Samples) == 0 {
		for r := range outA {
			c.St.Samples = append(c.St.Samples, clip(c.key, 200)+" => "+clip(r, 150))
			break
		}
	}
	gaveUp := func(r string) bool {
		if p.mayGiveUp {
			for _, m := range markerPrefixes {
				if strings.Contains(r, m) {
					return true
				}
			}
		}
		return false
	}
	if p.mayGiveUp && differs && !p.guess {
		values := func(m map[string][]uint64) (n int) {
			for r := range m {
				if !gaveUp(r) {
					n++
				}
			}
			return
		}
		if values(outA) == 0 && values(outB) > 0 {
			rep.Choices = firstDiff
			c.report("only-gives-up", fmt.Sprintf("no value is found by the schema %s, the one %s has some\n%s", p.what[1], p.what[0], clip(p.withRef, 500)), rep)
		}
	}
	if !differs {
		c.extra("pairs_equal_choice_by_choice", 1)
		return
	}
	// The two generators draw differently; compare what they can produce.
	if !st.Complete || p.onlyValid {
		c.extra("pairs_compared_by_validity_only", 1)
		return
	}
	st2 := search(env{}, cfg, generateB, func(o *outcome, pol policy, devs int) bool {
		rb := render(o)
		if _, ok := outB[rb]; !ok {
			outB[rb] = o.choices()
		}
		return true
	})
	c.St.Executions += st2.Executions
	if !st2.Complete || !st.DomComplete || !st2.DomComplete {
		c.extra("pairs_compared_by_validity_only", 1)
		return
	}
	c.extra("pairs_compared_by_outcome_sets", 1)
	for r, ch := range outB {
		if _, ok := outA[r]; !ok && !gaveUp(r) {
			rep.Choices, rep.OutInlined = ch, r
			c.report("missing-outcome", fmt.Sprintf("%s can be generated by the schema %s but not by the one %s\n%s\nfirst difference at %v", clip(r, 200), p.what[0], p.what[1], clip(p.withRef, 500), clipChoices(firstDiff)), rep)
			return
		}
	}
	for r, ch := range outA {
		if _, ok := outB[r]; !ok && !gaveUp(r) {
			rep.Choices, rep.Out = ch, r
			c.report("extra-outcome", fmt.Sprintf("%s can be generated by the schema %s but not by the one %s\n%s", clip(r, 200), p.what[1], p.what[0], clip(p.withRef, 500)), rep)
			return
		}
	}
}

// withoutMarkers leaves out the texts of give-up messages, which cite the schema.
func withoutMarkers(val interface{}, raw []byte) interface{} {
	v, err := decodeJSON(raw)
	if err != nil {
		return val
	}
	var strip func(v interface{}) interface{}
	strip = func(v interface{}) interface{} {
		switch x := v.(type) {
		case map[string]interface{}:
			for k, e := range x {
				x[k] = strip(e)
			}
		case []interface{}:
			for i, e := range x {
				x[i] = strip(e)
			}
		case string:
			for _, m := range markerPrefixes {
				if strings.HasPrefix(x, m) {
					return m
				}
			}
		}
		return v
	}
	return strip(v)
}

// danglingRefs: none of them exists in refDangleDoc.
var danglingRefs = []string{
	`#/$defs/none`, `#/definitions/x`, `#/properties/none`, `#/properties/p/none`, `#/$defs/x/properties/none`, `#/$defs/x/items`, `#/$defs/x/prefixItems/0`, `#/$defs/x/additionalProperties`,
	`#/$defs/a/prefixItems/2`, `#/$defs/a/prefixItems/-1`, `#/$defs/a/prefixItems/x`, `#/$defs/l/items/5`, `#/$defs/l/items/01x`, `#/$defs/a/items/0`, `#/$defs/x/not`, `#/$defs/x/if`, `#/$defs/x/contains`, `#/$defs/x/additionalItems`, `#/$defs/x/unevaluatedItems`,
	`#/$defs/x/anyOf/0`, `#/$defs/x/patternProperties/a`, `#/$defs`, `#/properties`, `#/nosuchkeyword/x`, `#/$defs/x/type`, `#anchor`, `nosuch.json`, `nosuch.json#/$defs/x`, `http://verif.invalid/nosuch.json`, `#/$defs/x/`, `#/$defs//x`, `#/$defs/X`, `#/$defs/a~1b`, `#$defs/x`, `/$defs/x`,
	`#/$defs/f/additionalProperties`, `#/$defs/f/items`, `#/$defs/f/additionalItems/properties/x`,
}

const refDangleDoc = `{"type":"object","properties":{"p":%s},"required":["p"],"additionalProperties":false,"$defs":{"x":{"type":"integer","minimum":0,"maximum":3},"a":{"type":"array","prefixItems":[{"const":1},{"const":2}]},"l":{"type":"array","items":[{"const":1},{"const":2}]},"f":{"type":"object","additionalProperties":false}}}`

func runDangling(c *jctx, ctx, ref string) {
	c.key = "dangling " + ref + " in " + ctx
	s := strings.Replace(refDangleDoc, "%s", strings.Replace(ctx, "%s", `{"$ref":`+js(ref)+`}`, 1), 1)
	p := parseQuiet(env{}, s, nil)
	rep := scReplay{Schema: s}
	c.St.Cases++
	c.St.Executions++
	c.St.States++
	c.St.Outcomes++
	c.St.Complete++
	if p.panicV != "" {
		c.report("parse-panic:"+normKind(p.panicV), "ParseSchema panicked: "+p.panicV, rep)
		return
	}
	if p.errs == "" {
		o := runCtl(env{}, execCfg{}, nil, polLow, func() interface{} { return p.gen.Generate(genOpts{}.options()) })
		b, _ := json.Marshal(o.val)
		rep.Output = string(b) + o.panicV
		c.report("not-rejected", "a reference to nothing was accepted without any recorded error; it generates "+clip(rep.Output, 200), rep)
	}
}

func refJobs(tier string) []job {
	th := tier == "thorough"
	cfg := searchCfg{smallN: 6, fullCap: 260, devBound: 1, devCap: 40, maxPos: 30, policies: []policy{polRR1, polLow, polHigh, polMix}}
	if th {
		cfg.fullCap, cfg.devBound, cfg.devCap, cfg.policies = 6000, 2, 1200, defaultPolicies
	}
	opts := genOpts{UniqueAttempts: 10, IfAttempts: 10, OneOfAttempts: 10, Cutoff: 20000}
	var out []job
	var pairs []refPair
	for hi, h := range refHolders {
		for ci, ctx := range refContexts {
			for ti, t := range refTargets {
				if h.onlyTargets > 0 && ti >= h.onlyTargets {
					continue
				}
				// quick: every holder with every context for two targets, and every
				// target with the first holders and contexts
				if !th && (hi+ci+ti)%2 == 1 && !(ti%len(refTargets) == (hi+ci)%len(refTargets) || ti == (hi*7+ci*3+5)%len(refTargets) || (hi < 2 && (ci < 3 || ci > 9))) {
					continue
				}
				pairs = append(pairs, h.pair(ctx, t))
			}
		}
	}
	// the generators of definitions are handed out as well
	for _, kw := range []string{"$defs", "definitions"} {
		for ni, name := range []string{"x", "a/b", "a~b", "", "properties"} {
			for ri, root := range []string{`"type":"boolean"`, `"$ref":"#/%s"`, `"type":"array","items":{"allOf":[{"$ref":"#/%s"},{"title":"t"}]},"maxItems":1`, `"anyOf":[{"const":7},{"$ref":"#/%s"}]`} {
				for ti, t := range append(refTargets, `{"not":{"type":["string","object","array","number"]}}`, `{"type":"object","properties":{"k":{"not":{"type":["string","object","array","number"]}}},"required":["k"],"additionalProperties":false}`) {
					if ni > 0 && (!th || ri > 0) && (ni+ri+ti)%4 > 0 {
						continue
					}
					kw, name := kw, name
					root := strings.Replace(root, "%s", kw+"/"+strings.NewReplacer("~", "~0", "/", "~1").Replace(name), 1)
					w := `"w":` + wTarget
					withRef := `{` + root + `,"$defs":{` + w + `,` + js(name) + `:` + t + `}}`
					if kw != "$defs" {
						withRef = `{` + root + `,"$defs":{` + w + `},"definitions":{` + js(name) + `:` + t + `}}`
					}
					pairs = append(pairs, refPair{name: kw + " " + js(name) + " of {" + root + "}: " + t, withRef: withRef, inlined: `{"$defs":{` + w + `},` + t[1:],
						gen: func(g chaff.RootGenerator) interface{} {
							all := g.Defs
							if kw != "$defs" {
								all = g.Definitions
							}
							return chaff.RootGenerator{Generator: all[name]}.Generate(opts.options())
						},
						what: [2]string{"of the definition alone", "that hands out the definition"},
					})
				}
			}
		}
	}
	per := 8
	if th {
		per = 4
	}
	for i := 0; i < len(pairs); i += per {
		chunk := pairs[i:min(i+per, len(pairs))]
		out = append(out, job{key: "ref " + chunk[0].name, run: func(c *jctx) {
			for _, p := range chunk {
				runPair(c, p, opts, cfg)
			}
		}})
	}
	for _, ctx := range refContexts {
		ctx := ctx
		out = append(out, job{key: "dangling in " + ctx, run: func(c *jctx) {
			for _, ref := range danglingRefs {
				runDangling(c, ctx, ref)
			}
		}})
	}
	return out
}

func init() {
	register(&property{
		id:    "C12",
		level: "model_checking",
		rule:  "one case per (place of the target, position of the reference, target schema): both documents, with the reference and with the target in its place, are explored over the same choices; outcomes are compared choice by choice (or as complete sets when the generators draw differently) and judged against the reference semantics; dangling references in every position must be rejected",
		jobs:  withMany("C12", refJobs),
		notes: []string{"references into allOf are documented as unsupported and only have to be reported; so do tuples written as items next to conditions, which the draft 2020-12 validator of conditions does not know", "siblings of $ref are not explored here (draft 7 ignores them, later drafts apply them)"},
	})
}
