package main

// C15: parsing never panics and reports what it cannot honour.
// C16: generating never panics and always yields serialisable JSON.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- keyword grammar

var kwKind = map[string]string{
	"not": "schema", "contains": "schema", "if": "schema", "then": "schema", "else": "schema",
	"items": "items", "additionalItems": "schema|bool", "unevaluatedItems": "schema|bool", "additionalProperties": "schema|bool",
	"properties": "map", "patternProperties": "patternmap", "$defs": "map", "definitions": "map",
	"allOf": "list", "anyOf": "list", "oneOf": "list", "prefixItems": "list",
	"minLength": "size", "maxLength": "size", "minItems": "size", "maxItems": "size", "minContains": "size", "maxContains": "size", "minProperties": "size", "maxProperties": "size",
	"minimum": "number", "maximum": "number", "exclusiveMinimum": "number", "exclusiveMaximum": "number", "multipleOf": "positive",
	"type": "type", "pattern": "regex", "format": "string", "$ref": "string", "$id": "string",
	"required": "strings", "enum": "array", "const": "any", "uniqueItems": "bool",
	"dependentRequired": "unsupported", "dependentSchemas": "unsupported",
}

func keywords() []string {
	var l []string
	for k := range kwKind {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var kwValues = []string{
	`true`, `false`, `0`, `1`, `3`, `-1`, `2.5`, `-0.0`, `1e2`, `1e300`, `9007199254740993`, `99999999999999999999`,
	`""`, `"a"`, `"("`, `"string"`, `"#"`, `"#/properties/a"`, `"http://x.test/"`, `"date"`, `"^a$"`, `"\u0000"`, `"\ud800"`,
	`[]`, `["a"]`, `["a","a"]`, `["string","null"]`, `["string","x"]`, `[1]`, `["a",1]`, `[{}]`, `[true]`, `[[]]`, `[{"type":"string"},{"type":"null"}]`, `[{"minLength":"x"}]`,
	`{}`, `{"a":1}`, `{"a":{}}`, `{"a":true}`, `{"a":[]}`, `{"a":["b"]}`, `{"(":{}}`, `{"":{}}`, `{"a":{"type":"integer"}}`, `{"type":"string"}`, `{"type":5}`, `{"type":"nope"}`, `{"a":{"type":"nope"}}`, `{"$ref":"#"}`, `{"$ref":"#/nope"}`, `{"a":{"$ref":"#"}}`, `{"required":["a"]}`,
}

var typeNames = map[string]bool{"object": true, "array": true, "number": true, "integer": true, "string": true, "boolean": true, "null": true}

// schemaOK: 1 well formed, 0 must be reported, -1 either way.
func schemaOK(v interface{}) int {
	switch x := v.(type) {
	case bool:
		return -1
	case map[string]interface{}:
		r := 1
		for k, y := range x {
			if k2 := kwOK(k, y); k2 < r {
				if k2 == 0 {
					return 0
				}
				r = -1
			}
		}
		return r
	}
	return 0
}

// kwOK classifies the value of a keyword the same way.
func kwOK(kw string, v interface{}) int {
	if v == nil {
		return -1
	}
	all := func(l []interface{}, f func(interface{}) int) int {
		r := 1
		for _, y := range l {
			if c := f(y); c == 0 {
				return 0
			} else if c < r {
				r = c
			}
		}
		return r
	}
	kind, ok := kwKind[kw]
	if !ok {
		return 1
	}
	num, isNum := v.(json.Number)
	str, isStr := v.(string)
	list, isList := v.([]interface{})
	m, isMap := v.(map[string]interface{})
	_, isBool := v.(bool)
	switch kind {
	case "schema":
		return schemaOK(v)
	case "schema|bool":
		if isBool {
			return 1
		}
		return schemaOK(v)
	case "items":
		if isBool {
			return -1
		}
		if isList {
			return all(list, schemaOK)
		}
		return schemaOK(v)
	case "map", "patternmap":
		if !isMap {
			return 0
		}
		r := 1
		for k, y := range m {
			if kind == "patternmap" && k == "(" {
				return 0
			}
			if c := schemaOK(y); c == 0 {
				return 0
			} else if c < r {
				r = c
			}
		}
		return r
	case "list":
		if !isList {
			return 0
		}
		if len(list) == 0 {
			return -1
		}
		return all(list, schemaOK)
	case "size":
		if !isNum {
			return 0
		}
		r := rat(num)
		if r.Sign() < 0 || !r.IsInt() {
			return 0
		}
		if !r.Num().IsInt64() || strings.ContainsAny(string(num), ".eE-") {
			return -1
		}
		return 1
	case "number":
		if !isNum {
			return 0
		}
		return 1
	case "positive":
		if !isNum || rat(num).Sign() <= 0 {
			return 0
		}
		return 1
	case "type":
		if isStr {
			if typeNames[str] {
				return 1
			}
			return 0
		}
		if !isList || len(list) == 0 {
			return 0
		}
		return all(list, func(y interface{}) int {
			if s, ok := y.(string); ok && typeNames[s] {
				return 1
			}
			if y == nil {
				return -1
			}
			return 0
		})
	case "regex":
		if !isStr || str == "(" {
			return 0
		}
		return 1
	case "string":
		if !isStr {
			return 0
		}
		if kw == "$ref" && str == "#/nope" {
			return 0
		}
		return -1 // what a reference points to is not decided here
	case "strings":
		if !isList {
			return 0
		}
		return all(list, func(y interface{}) int {
			if _, ok := y.(string); ok {
				return 1
			}
			if y == nil {
				return -1
			}
			return 0
		})
	case "array":
		if !isList {
			return 0
		}
		if len(list) == 0 {
			return -1
		}
		return 1
	case "bool":
		if !isBool {
			return 0
		}
		return 1
	case "unsupported":
		if isMap && len(m) == 0 {
			return -1
		}
		return 0
	}
	return 1
}

// ---- one document

type docCase struct {
	family, text string
	mustErr      bool
	gen          bool // C16: generate, too
	opts         []genOpts
	search       searchCfg
	maxParse     int
}

type docReplay struct {
	Doc     string   `json:"document"`
	Opts    genOpts  `json:"opts"`
	Env     env      `json:"env"`
	Choices []uint64 `json:"choices"`
	Why     string   `json:"why"`
}

func parseErrsOnly(text string, maxParse int) (p parsed) {
	return parseQuiet(env{0, 0}, text, (&scase{maxParse: maxParse}).parserOptions())
}

func (d *docCase) run(c *jctx) {
	c.key = d.family + " " + clip(d.text, 400)
	c.St.Cases++
	envs := []env{{0, 0}}
	if strings.Count(d.text, ":") > 2 {
		envs = append(envs, env{1, 0})
	}
	for _, e := range envs {
		p := parseQuiet(e, d.text, (&scase{maxParse: d.maxParse}).parserOptions())
		c.St.Executions++
		c.St.States++
		c.St.Transitions++
		if heartbeat != nil {
			heartbeat()
		}
		rep := docReplay{Doc: clip(d.text, 20000), Env: e}
		if p.panicV != "" {
			c.report("parse-panic:"+normKind(p.panicV), "ParseSchema panicked: "+p.panicV, rep)
			return
		}
		if d.mustErr && p.errs == "" {
			out := ""
			if p.gen.Generator != nil {
				o := runCtl(e, execCfg{horizon: 5000}, nil, polLow, func() interface{} { return p.gen.Generate((&genOpts{}).options()) })
				b, _ := json.Marshal(o.val)
				out = string(b)
			}
			c.report("not-reported", "malformed or unsupported document was accepted without an error; it generates "+clip(out, 200), rep)
		}
		if p.errs != "" {
			c.St.Rejected++
		}
		if k := p.panicV + p.errs; !d.gen && !c.docSeen[k] {
			if c.docSeen == nil {
				c.docSeen = map[string]bool{}
			}
			c.docSeen[k] = true
			c.St.Outcomes++
		}
		if len(c.St.Samples) == 0 {
			c.St.Samples = append(c.St.Samples, clip(d.text, 150)+" => "+clip(p.errs, 150))
		}
		if !d.gen {
			continue
		}
		if p.gen.Generator == nil {
			c.report("no-generator", "ParseSchema returned no generator, Generate would dereference nil", rep)
			continue
		}
		for _, g := range d.opts {
			g := g
			outs := map[string]bool{}
			st := search(e, d.search, func() interface{} { return p.gen.Generate(g.options()) }, func(o *outcome, pol policy, devs int) bool {
				if o.horizon {
					c.extra("executions_cut_at_horizon", 1)
					return true
				}
				kind, why := "", ""
				if o.panicV != "" {
					kind, why = "panic:"+normKind(o.panicV), o.panicV
				} else if b, err := json.Marshal(o.val); err != nil {
					kind, why = "unserialisable", fmt.Sprintf("%v: %v", err, o.val)
				} else if _, err := decodeJSON(b); err != nil {
					kind, why = "unserialisable", err.Error()
				} else {
					outs[string(b)] = true
				}
				if kind != "" && !c.reported(kind) {
					rep.Choices, rep.Why, rep.Opts = o.choices(), why, g
					c.report(kind, fmt.Sprintf("%s\noptions%s choices %v", why, g.label(), clipChoices(rep.Choices)), rep)
				}
				return true
			})
			c.St.Cases--
			c.addSearch(st, len(outs))
		}
	}
}

func docJobs(cases []docCase, per int) []job {
	var out []job
	for i := 0; i < len(cases); i += per {
		j := i + per
		if j > len(cases) {
			j = len(cases)
		}
		chunk := cases[i:j]
		out = append(out, job{key: clip(chunk[0].family+" "+chunk[0].text, 300), run: func(c *jctx) {
			for k := range chunk {
				chunk[k].run(c)
			}
		}})
	}
	return out
}

// holders puts a schema at every position a schema can have.
var docHolders = []string{
	`%`, `{"properties":{"a":%}}`, `{"patternProperties":{"^a$":%}}`, `{"additionalProperties":%}`, `{"items":%}`, `{"items":[%]}`, `{"prefixItems":[{},%]}`, `{"items":[{}],"additionalItems":%}`,
	`{"unevaluatedItems":%}`, `{"contains":%}`, `{"allOf":[%]}`, `{"allOf":[{"type":"object"},%]}`, `{"anyOf":[%,{"type":"null"}]}`, `{"oneOf":[{"const":5},%]}`, `{"not":%}`, `{"type":"string","not":%}`,
	`{"if":%,"then":{"title":"x"}}`, `{"if":{"title":"x"},"then":%}`, `{"if":{"title":"x"},"else":%}`,
	`{"$defs":{"a":%},"$ref":"#/$defs/a"}`, `{"definitions":{"a":%},"items":{"$ref":"#/definitions/a"}}`, `{"$defs":{"unused":%}}`,
}

func hold(h, s string) string { return strings.Replace(h, "%", s, 1) }

// holderReports: the parser has to look into that position to honour the schema.
func holderChecks(h string) bool {
	return true
}

func singles() []docCase {
	var out []docCase
	for _, k := range keywords() {
		for _, v := range kwValues {
			s := `{"` + k + `":` + v + `}`
			ok := kwOK(k, mustDecode(v))
			for _, h := range docHolders {
				if strings.Contains(v, "$ref") && strings.Contains(h, "$ref") {
					continue
				}
				out = append(out, docCase{family: "single", text: hold(h, s), mustErr: ok == 0 && !ignoredThere(h, k, v)})
			}
		}
	}
	return out
}

// ignoredThere: the schema can be honoured without looking at the value.
func ignoredThere(h, k, v string) bool {
	if strings.Contains(v, "#/nope") {
		return true // references are subject of C12
	}
	if !misused(v) && !wellShaped(k, v) {
		return false // does not even decode
	}
	switch k {
	case "then", "else", "additionalItems", "$defs", "definitions":
		return h != "%" || k != "$defs" && k != "definitions" // without "if" or "items"; definitions belong to the root
	case "dependentRequired", "dependentSchemas":
		// conditions and negations are decided by a validator that knows these keywords
		return strings.Contains(h, `"not":%`) || strings.Contains(h, `"if":%`)
	}
	return strings.Contains(h, `{"type":"object"},%`) && k != "type" && kwKind[k] != "unsupported"
}

// misused: the type name is unknown, everything else is well formed.
func misused(v string) bool { return strings.Contains(v, "nope") || strings.Contains(v, `"x"`) }

// wellShaped: of the right JSON type, whatever its meaning.
func wellShaped(k, v string) bool {
	switch kwKind[k] {
	case "size":
		return v == "-1"
	case "positive":
		return v == "-1" || v == "0" || v == "-0.0"
	case "regex":
		return v == `"("`
	case "patternmap":
		return strings.Contains(v, `"("`)
	case "type":
		return strings.HasPrefix(v, `"`) && v != `""`
	case "unsupported":
		x := mustDecode(v)
		_, ok := x.(map[string]interface{})
		return ok
	}
	return false
}

// pairValues: per keyword the values used in pairs.
var pairValues = map[string][]string{
	"not": {`{"type":"string"}`, `{}`, `{"required":["a"]}`}, "contains": {`{"const":1}`, `{}`}, "if": {`{"type":"string"}`, `{"required":["a"]}`}, "then": {`{"maxLength":2}`, `{"type":"null"}`}, "else": {`{"minimum":3}`, `{"type":"null"}`},
	"items": {`{"type":"integer"}`, `[{"type":"integer"}]`, `false`, `[]`}, "additionalItems": {`true`, `false`, `{"type":"null"}`}, "unevaluatedItems": {`true`, `false`, `{"type":"null"}`}, "additionalProperties": {`true`, `false`, `{"type":"null"}`},
	"properties": {`{}`, `{"a":{"type":"integer"}}`, `{"a":{},"b":{"const":1}}`}, "patternProperties": {`{}`, `{"^a":{"type":"integer"}}`}, "$defs": {`{"a":{"type":"null"}}`}, "definitions": {`{"a":{"type":"null"}}`},
	"allOf": {`[]`, `[{"type":"string"}]`, `[{"required":["a"]},{"minProperties":1}]`}, "anyOf": {`[]`, `[{"type":"string"},{"minimum":1}]`}, "oneOf": {`[]`, `[{"type":"string"},{"type":"integer"}]`}, "prefixItems": {`[]`, `[{"type":"integer"},{}]`},
	"minLength": {`0`, `2`}, "maxLength": {`0`, `2`}, "minItems": {`0`, `2`}, "maxItems": {`0`, `2`}, "minContains": {`0`, `2`}, "maxContains": {`0`, `2`}, "minProperties": {`0`, `2`}, "maxProperties": {`0`, `2`},
	"minimum": {`0`, `2.5`, `1e300`}, "maximum": {`0`, `2.5`, `-1e300`}, "exclusiveMinimum": {`0`, `3`}, "exclusiveMaximum": {`0`, `3`}, "multipleOf": {`1`, `0.1`, `1e300`},
	"type": {`"object"`, `"array"`, `"string"`, `"number"`, `"integer"`, `"boolean"`, `"null"`, `["string","object"]`, `[]`, `"nope"`}, "pattern": {`"^a+$"`, `"("`, `""`}, "format": {`"date"`, `"nope"`, `""`},
	"$ref": {`"#"`, `"#/$defs/a"`, `"#/nope"`, `"http://x.test/y"`, `"other.json"`, `""`}, "$id": {`"http://x.test/"`, `"a"`},
	"required": {`[]`, `["a"]`, `["a","b","c"]`}, "enum": {`[]`, `[1]`, `["a",null,{"a":1},[2]]`}, "const": {`null`, `1`, `{"a":1}`, `[1,1]`}, "uniqueItems": {`true`, `false`},
	"dependentRequired": {`{"a":["b"]}`}, "dependentSchemas": {`{"a":{"type":"string"}}`},
}

func pairDocs() []docCase {
	var out []docCase
	ks := keywords()
	for i, k := range ks {
		for _, l := range ks[i+1:] {
			for _, v := range pairValues[k] {
				for _, w := range pairValues[l] {
					s := `{"` + k + `":` + v + `,"` + l + `":` + w + `}`
					out = append(out, docCase{family: "pair", text: s})
				}
			}
		}
	}
	return out
}

// unsupportedDocs: an unsupported keyword next to any other one, anywhere.
func unsupportedDocs() []docCase {
	var out []docCase
	for _, u := range []string{`"dependentRequired":{"a":["b"]}`, `"dependentSchemas":{"a":{"type":"string"}}`, `"dependentRequired":{"a":[]},"dependentSchemas":{"b":{}}`} {
		for _, k := range keywords() {
			if kwKind[k] == "unsupported" {
				continue
			}
			for _, v := range pairValues[k] {
				for _, h := range []string{`%`, `{"type":"object","properties":{"p":%},"required":["p"]}`, `{"type":"array","items":%,"minItems":1}`, `{"allOf":[%]}`, `{"allOf":[{},%]}`, `{"anyOf":[%,{"type":"null"}]}`, `{"oneOf":[{"type":"null"},%]}`, `{"$ref":"#/$defs/d","$defs":{"d":%}}`,
					`{"properties":{"p":{"$ref":"#/definitions/d"}},"definitions":{"d":%}}`, `{"type":"object","additionalProperties":%}`, `{"patternProperties":{"^a":%}}`, `{"type":"array","prefixItems":[{},%]}`, `{"type":"array","contains":%}`, `{"if":{},"then":%}`, `{"if":{"const":1},"then":{},"else":%}`} {
					out = append(out, docCase{family: "unsupported next to", text: strings.Replace(h, "%", `{`+u+`,"`+k+`":`+v+`}`, 1), mustErr: true})
				}
			}
		}
	}
	return out
}

// crossForms put one schema next to the negation, condition or conjunction of another: the parser merges the two,
// for each keyword by code of its own.
var crossForms = []struct {
	form string
	both bool // not symmetrical
}{
	{`{"allOf":[#,%]}`, false}, {`{"not":%,#}`, true}, {`{"allOf":[#,{"not":%}]}`, true}, {`{"not":{"allOf":[#,%]}}`, false}, {`{"not":{"anyOf":[#,%]}}`, false},
	{`{"if":%,"then":#,"else":{"not":#}}`, true}, {`{"oneOf":[#,%]}`, false}, {`{"not":{#,"not":%}}`, true}, {`{"type":["object","array","string","number","boolean","null"],"not":%,#}`, true},
	{`{#,"oneOf":[%,{"not":%}]}`, true}, {`{#,"anyOf":[%,{"type":"null"}]}`, true}, {`{"contains":#,"items":%}`, true}, {`{"properties":{"a":#},"patternProperties":{"^a":%},"additionalProperties":{"not":%}}`, true},
	{`{"prefixItems":[#],"items":%,"unevaluatedItems":%}`, true},
}

// typeAbout names the type a keyword is about.
func typeAbout(k string) string {
	switch k {
	case "minLength", "maxLength", "pattern", "format":
		return "string"
	case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf":
		return "number"
	case "items", "additionalItems", "unevaluatedItems", "prefixItems", "contains", "minContains", "maxContains", "minItems", "maxItems", "uniqueItems":
		return "array"
	case "properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties":
		return "object"
	}
	return ""
}

// crossDocs: pairs of keywords, the same one included, with and without a type, in two schemas that get merged.
func crossDocs(values int) []docCase {
	var out []docCase
	ks := keywords()
	member := func(k, v string, typed int) string {
		m := js(k) + ":" + v
		if t := typeAbout(k); typed == 1 && t != "" {
			m = `"type":` + js(t) + "," + m
		} else if typed == 2 && k != "type" {
			m = `"type":"boolean",` + m
		}
		return m
	}
	put := func(form, a, b string) string {
		// a place between commas takes the members, any other place the schema
		form = strings.ReplaceAll(form, `{#,`, `{`+a+`,`)
		form = strings.ReplaceAll(form, `,#}`, `,`+a+`}`)
		form = strings.ReplaceAll(form, `#`, `{`+a+`}`)
		return strings.ReplaceAll(form, `%`, `{`+b+`}`)
	}
	for _, f := range crossForms {
		for i, k := range ks {
			for j, l := range ks {
				if !f.both && j < i || k == "$ref" || l == "$ref" || k == "$id" || l == "$id" {
					continue
				}
				for x, v := range pairValues[k] {
					for y, w := range pairValues[l] {
						for typed := 0; typed < 3; typed++ {
							// the first values of each, both typed by the same rule
							if values < 9 && (x >= values || y >= values || typed == 2 && (x > 0 || y > 0)) {
								continue
							}
							if typed == 1 && typeAbout(k) == "" && typeAbout(l) == "" {
								continue
							}
							a, b := member(k, v, typed), member(l, w, typed)
							if strings.Contains(f.form, `{#,`) && strings.Contains(f.form, `"oneOf"`) && k == "oneOf" || strings.Contains(f.form, `"anyOf"`) && k == "anyOf" && strings.Contains(f.form, `{#,`) || strings.Contains(f.form, `"not":%`) && k == "not" && !strings.Contains(f.form, "allOf") || typed == 2 && k == "type" || typed == 1 && k == "type" || strings.Contains(f.form, `{"type":[`) && (typed > 0 || k == "type") {
								continue // the same key twice
							}
							out = append(out, docCase{family: "cross", text: put(f.form, a, b)})
						}
					}
				}
			}
		}
	}
	return out
}

var oddRefs = []string{
	``, `#`, `##`, `#/`, `#//`, `/`, `//`, `///`, `?`, `?#`, `#?`, `.`, `..`, `./`, `../`, `./.`, `a`, `a#`, `#a`, `#a/b`, `#/a`, `#/a/`, `#/a//b`, `#/~`, `#/~0`, `#/~1`, `#/~2`, `#/~01`, `#/$defs/~`, `#/%`, `#/%2`, `#/%zz`, `#/%25`, `#/%00`, `#/%0A`, `#/%0D%0A`, `#/%2F`, `#/%23`, `#/%E9`, `#/%ff`,
	`\n`, `\r`, `\t`, `\u0000`, `#\n`, `#/\n`, `\n#`, `a\n`, `\na#/b`, `#/a\nb`, `#/\u0000`, `#/\ud800`, `\ufeff#`, `#/\u2028`, ` #`, `# `, ` `, `#/ `, `a b`, `#/a b`, `#/-`, `#/0`, `#/-1`, `#/00`, `#/1e2`, `#/99999999999999999999`, `#/allOf/0`, `#/allOf/-`, `#/allOf/-1`, `#/allOf/99999999999999999999`, `#/allOf/ 0`, `#/allOf/0x0`, `#/$ref`, `#/$defs`, `#/$defs/`, `#/$defs/a`, `#/$defs/a/`, `#/$defs/a/b`, `#/type`, `#/required/0`, `#/properties`, `#/properties/`, `#/properties/p/properties`,
	`http:`, `http:/`, `http://`, `http://#`, `http:///`, `http://[`, `http://[::1`, `http://a:b/`, `http://a:99999999/`, `http://%`, `http://a/%zz`, `http://a b/`, `http://\n/`, `https://`, `https://?`, `file:`, `file:/`, `file://`, `file:///`, `file://x`, `file://%`, `file:///%00`, `file:///\u0000`, `file://localhost`, `file:a`, `urn:`, `urn:x`, `urn:x#`, `urn:x#/a`, `data:,`, `mailto:a@b`, `:`, `::`, `:a`, `1:`, `a:b:c`, `c:\\x`, `\\\\x\\y`, `[`, `]`, `{`, `}`, `|`, `^`, "`", `<`, `>`, `\"`, `%`, `%%`, `%s`, `%d`, `#/%s`, `é`, `#/é`, `#é`, `日本`, `http://é/`,
}

// refDocs: odd references, at several positions, with several base addresses.
func refDocs() []docCase {
	var out []docCase
	for _, r := range oddRefs {
		for _, h := range append([]string{`{"allOf":[%,{}],"properties":{"p":{"properties":{}}},"required":["p"],"type":"object"}`, `{"$defs":{"a":{"type":"null"}},"items":%}`}, docHolders...) {
			for _, id := range []string{"", `"$id":"http://x.test/a/b",`, `"$id":"a/b.json",`, `"$id":"urn:x",`, `"$id":"#frag",`, `"$id":"file:///tmp/none/x.json",`} {
				if id != "" && !strings.HasPrefix(h, "{") {
					continue
				}
				s := hold(h, `{"$ref":"`+r+`"}`)
				if id != "" {
					s = "{" + id + s[1:]
				}
				out = append(out, docCase{family: "ref", text: s})
			}
		}
		for _, h := range []string{`%`, `{"$defs":{"a":%},"$ref":"#/$defs/a"}`, `{"items":%,"contains":{"$ref":"x"}}`} {
			out = append(out, docCase{family: "id", text: hold(h, `{"$id":"`+r+`","properties":{"a":{"$ref":"#"},"b":{"$ref":"b"}}}`)})
		}
		out = append(out, docCase{family: "ref", text: `{"$ref":"` + r + `","` + r + `":{"type":"null"}}`}, docCase{family: "ref", text: `{"$defs":{"` + r + `":{"$ref":"#/$defs/` + r + `"}},"allOf":[{"$ref":"#/$defs/` + r + `"}]}`})
	}
	return out
}

var richDocs = []string{
	`{"type":"object","properties":{"a":{"type":"string","pattern":"^[ab]{2}$"},"b":{"enum":[1,null,"x"]}},"required":["a"],"additionalProperties":false}`,
	`{"$id":"http://x.test/r","$ref":"#/$defs/t","$defs":{"t":{"anyOf":[{"type":"null"},{"type":"array","items":{"$ref":"#/$defs/t"},"maxItems":2}]}}}`,
	`{"allOf":[{"minimum":1},{"maximum":4.5}],"if":{"multipleOf":2},"then":{"maximum":3},"else":{"not":{"const":3}}}`,
	`{"prefixItems":[{"const":1}],"contains":{"type":"null"},"uniqueItems":true,"minItems":2,"unevaluatedItems":{"type":"null"}}`,
	`{"oneOf":[{"type":["string","null"],"maxLength":1},{"patternProperties":{"^x":{"format":"ipv4"}},"minProperties":1}]}`,
}

// malformed: every prefix, every deleted byte, every byte replaced by each of a few others.
func malformedDocs(th bool) []docCase {
	var out []docCase
	add := func(fam, s string) {
		out = append(out, docCase{family: fam, text: s, mustErr: !json.Valid([]byte(s))})
	}
	docs := richDocs
	for _, d := range docs {
		for i := range d {
			add("truncated", d[:i])
			add("deleted", d[:i]+d[i+1:])
			repl := `{]":,0`
			if th {
				repl = "{}[]\":,0-.entfx\\\x00\xff "
			}
			for j := range repl {
				if repl[j] != d[i] {
					add("replaced", d[:i]+repl[j:j+1]+d[i+1:])
				}
			}
			if th {
				for j := range repl {
					add("inserted", d[:i]+repl[j:j+1]+d[i:])
				}
				for k := i + 1; k <= len(d) && k < i+24; k++ {
					add("cut", d[:i]+d[k:])
				}
			}
		}
	}
	for _, s := range []string{``, ` `, `null`, `true`, `false`, `0`, `-1.5`, `""`, `"a"`, `[]`, `[{}]`, `{}`, `{} {}`, `{}x`, "\ufeff{}", "{\"a\":1}\x00", `{"type":"string","type":"integer"}`, `{'type':'string'}`, `{"type":"string",}`, `// x`, `{"type":NaN}`, `{"minimum":1e999}`, `{"maximum":-1e999}`, `{"enum":[1e999]}`, `{"const":1e999}`, "\xff\xfe{}"} {
		must := !json.Valid([]byte(s))
		if json.Valid([]byte(s)) && s != `{}` && s != `null` && s[0] != '{' && s[0] != ' ' && s != `true` && s != `false` {
			must = true // no schema
		}
		out = append(out, docCase{family: "document", text: s, mustErr: must})
	}
	return out
}

// deepDocs: nesting far beyond the parse depth.
func deepDocs() []docCase {
	var out []docCase
	for _, h := range docHolders[1:] {
		if strings.Contains(h, "$ref") {
			continue
		}
		for _, n := range []int{1, 2, 3, 5, 8, 12, 16} {
			s := `{"type":"string"}`
			for i := 0; i < n; i++ {
				s = hold(h, s)
			}
			out = append(out, docCase{family: fmt.Sprintf("nested-%d", n), text: s})
		}
		for _, n := range []int{120, 200} {
			s := `{"type":"string"}`
			for i := 0; i < n; i++ {
				s = hold(h, s)
			}
			// nesting of values is reported once it exceeds the parse depth
			must := strings.Contains(h, "properties") || strings.HasPrefix(h, `{"items"`) || strings.Contains(h, "prefixItems")
			out = append(out, docCase{family: fmt.Sprintf("deep-%d", n), text: s, mustErr: must})
		}
	}
	return out
}

// fileJobs: ParseSchemaFile on files that can not be read or parsed.
func fileJob() job {
	return job{key: "files", run: func(c *jctx) {
		c.key = "files"
		dir, err := os.MkdirTemp("", "verif-c15-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		w := func(name, text string) string {
			p := filepath.Join(dir, name)
			if os.WriteFile(p, []byte(text), 0o600) != nil {
				panic("write")
			}
			return p
		}
		link := filepath.Join(dir, "loop")
		_ = os.Symlink(link, link)
		_ = os.Mkdir(filepath.Join(dir, "d"), 0o700)
		good := filepath.Join(dir, "goodlink")
		_ = os.Symlink(w("good.json", `{"type":"null"}`), good)
		for _, x := range []struct {
			path string
			bad  bool
		}{
			{filepath.Join(dir, "good.json"), false}, {good, false},
			{filepath.Join(dir, "missing.json"), true}, {filepath.Join(dir, "d"), true}, {link, true}, {"", true}, {filepath.Join(dir, "good.json", "x"), true},
			{w("empty.json", ""), true}, {w("trunc.json", `{"type":`), true}, {w("list.json", `[]`), true}, {w("kw.json", `{"minLength":"x"}`), true}, {w("type.json", `{"type":"nope"}`), true}, {"a\x00b", true},
		} {
			for _, def := range []bool{false, true} {
				c.St.Cases++
				c.St.Executions++
				c.St.States++
				c.St.Transitions++
				var errs string
				pv := runQuiet(env{0, 0}, func() {
					var g chaff.RootGenerator
					var err error
					if def {
						g, err = chaff.ParseSchemaFileWithDefaults(x.path)
					} else {
						g, err = chaff.ParseSchemaFile(x.path, &chaff.ParserOptions{})
					}
					errs = parseErrs(g, err)
					if g.Generator == nil {
						panic("no generator returned")
					}
					_ = g.Generate(&chaff.GeneratorOptions{})
				})
				name := strings.TrimPrefix(x.path, dir)
				if pv != "" {
					c.report("panic:"+normKind(pv)+name, "ParseSchemaFile("+name+") panicked: "+pv, nil)
				}
				if (errs != "") != x.bad {
					c.report("file:"+name, fmt.Sprintf("ParseSchemaFile(%s): errors %q, expected %v", name, strings.ReplaceAll(errs, dir, "DIR"), x.bad), nil)
				}
			}
		}
	}}
}

func parseDocs(tier string) []docCase {
	th := tier == "thorough"
	out := append(singles(), append(pairDocs(), unsupportedDocs()...)...)
	out = append(out, malformedDocs(th)...)
	out = append(out, refDocs()...)
	out = append(out, crossDocs(map[bool]int{false: 2, true: 9}[th])...)
	return append(out, deepDocs()...)
}

// ---- C16

func weirdOpts(th bool) []genOpts {
	var out []genOpts
	vals := []int{-3, -1, 1, 2}
	for _, v := range vals {
		out = append(out, genOpts{IfAttempts: v}, genOpts{OneOfAttempts: v}, genOpts{UniqueAttempts: v}, genOpts{MaxSteps: v}, genOpts{Cutoff: v}, genOpts{RefDepth: v}, genOpts{RefDepth: v, Bypass: true})
		for _, w := range vals {
			out = append(out, genOpts{ArrMin: v, ArrMax: w, ObjMin: v, ObjMax: w})
			out = append(out, genOpts{MaxSteps: v, Cutoff: w}, genOpts{NumMin: v, NumMax: w, StrMin: v, StrMax: w})
			if th {
				out = append(out, genOpts{IfAttempts: v, OneOfAttempts: w, UniqueAttempts: v}, genOpts{ArrMin: v, ObjMax: w}, genOpts{ArrMax: v, ObjMin: w}, genOpts{MaxSteps: v, ArrMax: w, ObjMax: w})
			}
		}
	}
	const big = 1 << 62
	out = append(out, genOpts{NumMin: big}, genOpts{NumMax: big}, genOpts{NumMin: -big, NumMax: big}, genOpts{NumMin: big, NumMax: -big}, genOpts{StrMin: 50, StrMax: 3}, genOpts{StrMin: 200},
		genOpts{MaxSteps: 50, Cutoff: 10}, genOpts{MaxSteps: 10, Cutoff: 50}, genOpts{MaxSteps: 40, Cutoff: 40})
	return out
}

// optionDocs: schemas that use every option.
var optionDocs = append([]string{
	`{}`, `{"type":"array"}`, `{"type":"object"}`, `{"type":"array","uniqueItems":true}`, `{"type":"array","items":{"enum":[1,2]},"uniqueItems":true,"minItems":1,"maxItems":3}`,
	`{"type":"array","contains":{"const":1},"minContains":2}`, `{"type":"array","prefixItems":[{},{}],"items":false}`, `{"type":"array","maxItems":2}`, `{"type":"array","minItems":3}`,
	`{"type":"array","prefixItems":[{},{}],"unevaluatedItems":false}`, `{"type":"array","items":[{}],"additionalItems":{"type":"null"},"minItems":2}`,
	`{"properties":{"a":{},"b":{},"c":{}},"required":["b"]}`, `{"properties":{"a":{},"b":{},"c":{}},"minProperties":2}`, `{"patternProperties":{"^a[0-9]$":{}},"maxProperties":2}`, `{"additionalProperties":{"type":"null"},"minProperties":1}`, `{"maxProperties":1}`,
	`{"properties":{"a":{"$ref":"#"}},"required":["a"]}`, `{"items":{"$ref":"#"},"minItems":1}`, `{"properties":{"a":{"$ref":"#"},"b":{"$ref":"#"}}}`, `{"anyOf":[{"$ref":"#"},{"type":"null"}]}`,
	`{"oneOf":[{"enum":[1,2]},{"enum":[2,3]}]}`, `{"oneOf":[{"const":1},{"const":1}]}`, `{"type":"boolean","not":{"const":true}}`, `{"type":"integer","minimum":0,"maximum":1,"not":{"enum":[0,1]}}`,
	`{"enum":[1,2],"if":{"const":1},"then":{"const":1},"else":{"const":2}}`, `{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"a":{"const":2}}}}`,
	`{"type":"string"}`, `{"type":"string","minLength":3}`, `{"type":"string","maxLength":2}`, `{"type":"number"}`, `{"type":"integer","multipleOf":7}`, `{"type":"number","minimum":0.5}`, `{"pattern":"^[a-c]{2,}$"}`, `{"format":"uuid"}`,
	`{"type":"number","minimum":-1.7e308,"maximum":1.7e308}`, `{"type":"number","minimum":-1.7e308}`, `{"type":"number","maximum":1.7e308}`, `{"type":"number","minimum":1.7e308}`, `{"type":"number","maximum":-1.7e308}`,
	`{"type":"integer","minimum":-1.7e308,"maximum":1.7e308}`, `{"type":"integer","minimum":1e300}`, `{"type":"number","exclusiveMinimum":-1.7e308,"exclusiveMaximum":1.7e308}`,
	`{"type":"number","minimum":-1.7e308,"maximum":1.7e308,"multipleOf":1e300}`, `{"type":"number","minimum":1e300,"maximum":1.7e308,"multipleOf":0.5}`, `{"type":"number","minimum":5e-324,"maximum":1e-323}`, `{"type":"number","multipleOf":1.7e308}`,
	`{"type":"number","multipleOf":5e-324}`, `{"type":"integer","minimum":-9223372036854775808,"maximum":9223372036854775807}`, `{"type":"integer","multipleOf":9223372036854775807}`,
	`{"type":"number","minimum":-1.7e308,"maximum":1.7e308,"not":{"const":0}}`, `{"allOf":[{"minimum":-1.7e308},{"maximum":1.7e308}],"type":"number"}`,
}, richDocs...)

func genDocs(tier string) []docCase {
	th := tier == "thorough"
	var out []docCase
	small := searchCfg{smallN: 3, fullCap: 5, devBound: 1, devCap: 3, policies: []policy{polRR1, polLow, polHigh}, exec: execCfg{horizon: 4000}}
	wide := searchCfg{smallN: 4, fullCap: 70, devBound: 1, devCap: 15, policies: defaultPolicies, exec: execCfg{horizon: 20000}}
	if th {
		small.fullCap, small.devCap = 60, 30
		wide.fullCap, wide.devCap, wide.devBound = 3000, 600, 2
	}
	def := []genOpts{{Cutoff: 300, IfAttempts: 3, OneOfAttempts: 3, UniqueAttempts: 3}}
	docs := append(pairDocs(), deepDocs()...)
	ss := singles()
	for i, d := range ss {
		if th || i%5 == 0 || strings.HasPrefix(d.text, `{"`) && strings.Count(d.text, "{") == 1 {
			docs = append(docs, d)
		}
	}
	for _, d := range docs {
		if strings.Contains(d.text, "9007199254740993") {
			continue // sizes no memory can hold
		}
		d.mustErr, d.gen, d.opts, d.search = false, true, def, small
		out = append(out, d)
	}
	for _, d := range malformedDocs(th) {
		if d.mustErr && d.family == "replaced" {
			continue
		}
		d.mustErr, d.gen, d.opts, d.search = false, true, def, small
		out = append(out, d)
	}
	for _, d := range crossDocs(map[bool]int{false: 1, true: 2}[th]) {
		d.gen, d.opts, d.search = true, def, small
		out = append(out, d)
	}
	for _, s := range optionDocs {
		out = append(out, docCase{family: "options", text: s, gen: true, opts: append([]genOpts{{}}, weirdOpts(th)...), search: wide})
		for _, mp := range []int{1, 2, -1} {
			out = append(out, docCase{family: "options", text: s, gen: true, opts: []genOpts{{}}, search: wide, maxParse: mp})
		}
	}
	// schemas with many parts
	few := []genOpts{{IfAttempts: 3, OneOfAttempts: 3, UniqueAttempts: 3}, {Cutoff: 5, MaxSteps: 2, IfAttempts: 1, OneOfAttempts: 1}, {ObjMin: 3, ObjMax: -1, ArrMin: -1, ArrMax: -3, IfAttempts: -1, OneOfAttempts: -1, UniqueAttempts: -1}, {MaxSteps: -1, Cutoff: -1, RefDepth: -1}}
	for _, p := range []string{"C02", "C05", "C06", "C08", "C09", "C10", "C11", "C12"} {
		for _, c := range manyCases(p, tier) {
			out = append(out, docCase{family: "many", text: c.schema, gen: true, opts: few, search: small})
		}
	}
	return out
}

func init() {
	register(&property{
		id:    "C16",
		level: "model_checking",
		rule:  "The generator returned for every document of the grammar of C15, accepted or not, is run under option settings that include negative and contradictory values, and its choice tree is explored within the bounds: no panic, and a value that encoding/json serialises.",
		jobs:  func(tier string) []job { return docJobs(genDocs(tier), 60) },
	})
	register(&property{
		id:    "C15",
		level: "model_checking",
		rule:  "Every document of the grammar (each keyword with each kind of value at each schema position, every pair of keywords, every truncation, deletion and replacement in sample schemas, nesting beyond the parse depth) is parsed: no panic, termination, and an error for every document that is malformed, has a wrongly typed keyword or uses a keyword known to be unsupported.",
		jobs: func(tier string) []job {
			return append(docJobs(parseDocs(tier), 200), fileJob())
		},
		notes: []string{"A JSON null in place of a keyword counts as the absence of the keyword."},
	})
}
