package main

// C26: a schema means the same however it is written and handed over. Every case is a pair: a document and a
// respelling of it that JSON and JSON Schema say means the same. Both are explored over the same choices.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- JSON documents with their spelling

type jnode struct {
	keys []string
	kids []*jnode
	kind byte   // '{', '[', '"', or 'x' (number, literal)
	text string // decoded string, or literal
}

func parseTree(s string) *jnode {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	return readTree(d)
}

func readTree(d *json.Decoder) *jnode {
	t, err := d.Token()
	mustNil(err)
	switch x := t.(type) {
	case json.Delim:
		n := &jnode{kind: byte(x)}
		for d.More() {
			if x == '{' {
				k, err := d.Token()
				mustNil(err)
				n.keys = append(n.keys, k.(string))
			}
			n.kids = append(n.kids, readTree(d))
		}
		_, err := d.Token()
		mustNil(err)
		return n
	case string:
		return &jnode{kind: '"', text: x}
	case json.Number:
		return &jnode{kind: 'x', text: string(x)}
	case nil:
		return &jnode{kind: 'x', text: "null"}
	default:
		return &jnode{kind: 'x', text: fmt.Sprint(x)}
	}
}

func (n *jnode) clone() *jnode {
	m := &jnode{kind: n.kind, text: n.text, keys: append([]string(nil), n.keys...)}
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	return m
}

// pen says how a tree is written down.
type pen struct {
	space  func(i int) string // white space before token i
	str    func(s string, key bool) string
	tokens int
	b      strings.Builder
}

func quoted(s string, _ bool) string { return js(s) }

func (p *pen) tok(s string) {
	if p.space != nil {
		p.b.WriteString(p.space(p.tokens))
	}
	p.tokens++
	p.b.WriteString(s)
}

func (p *pen) write(n *jnode) {
	switch n.kind {
	case '{', '[':
		p.tok(string(n.kind))
		for i, k := range n.kids {
			if i > 0 {
				p.tok(",")
			}
			if n.kind == '{' {
				p.tok(p.str(n.keys[i], true))
				p.tok(":")
			}
			p.write(k)
		}
		p.tok(string(n.kind + 2))
	case '"':
		p.tok(p.str(n.text, false))
	default:
		p.tok(n.text)
	}
}

func (n *jnode) String() string {
	p := &pen{str: quoted}
	p.write(n)
	return p.b.String()
}

func (n *jnode) each(f func(*jnode)) {
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}

// schemas calls f for each schema in a schema, not for values or names.
func (n *jnode) schemas(f func(*jnode)) {
	if n.kind != '{' {
		return
	}
	f(n)
	for i, key := range append([]string(nil), n.keys...) {
		k := n.kids[i]
		switch key {
		case "properties", "patternProperties", "$defs", "definitions":
			for _, s := range k.kids {
				s.schemas(f)
			}
		case "allOf", "anyOf", "oneOf", "prefixItems", "items":
			if k.kind == '[' {
				for _, s := range k.kids {
					s.schemas(f)
				}
			} else {
				k.schemas(f)
			}
		case "additionalProperties", "additionalItems", "unevaluatedItems", "contains", "not", "if", "then", "else":
			k.schemas(f)
		}
	}
}

func (n *jnode) numbers(f func(key string, n *jnode), key string) {
	for i, k := range n.kids {
		kk := key
		if n.kind == '{' {
			kk = n.keys[i]
		}
		if k.kind == 'x' && (k.text[0] == '-' || k.text[0] >= '0' && k.text[0] <= '9') {
			f(kk, k)
		}
		k.numbers(f, kk)
	}
}

// ---- respellings

type respelling struct {
	name  string
	text  string
	parse func() parsed
	back  func(string) string
	gen   func(g chaff.RootGenerator) interface{}
}

func uEscape(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		} else {
			fmt.Fprintf(&b, `\u%04X`, r)
		}
	}
	return b.String() + `"`
}

// numberForms spells a number in other ways.
var numberForms = []struct {
	name string
	f    func(s string) string
}{
	{"n.0", func(s string) string {
		if strings.ContainsAny(s, ".eE") {
			return s + "0"
		}
		return s + ".0"
	}},
	{"n.000e+0", func(s string) string {
		if strings.ContainsAny(s, ".eE") {
			return s + "e+0"
		}
		return s + ".000e+0"
	}},
	{"n0e-1", func(s string) string {
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return s
		}
		for e := 1; ; e++ {
			r.Mul(r, big.NewRat(10, 1))
			if r.IsInt() {
				return fmt.Sprintf("%se-%d", r.Num().String(), e)
			}
		}
	}},
	{"0.nE1", func(s string) string {
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return s
		}
		return r.Mul(r, big.NewRat(1, 10)).FloatString(17) + "E1"
	}},
}

var sizeKeywords = map[string]bool{"minLength": true, "maxLength": true, "minItems": true, "maxItems": true, "minProperties": true, "maxProperties": true, "minContains": true, "maxContains": true}

// annotations: keywords that say nothing about values.
var annotations = []string{
	`"title":"t"`, `"description":"type: null"`, `"$comment":"#/$defs/none"`, `"default":{"$ref":"#/none","$id":"http://elsewhere.invalid/"}`, `"default":null`, `"examples":[{"$ref":"#/none","type":"nothing"},{"$id":"x:/"}]`, `"deprecated":true`, `"readOnly":true`, `"writeOnly":false`,
	`"x-note":{"$comment":"none"}`, `"unknown":5`, `"contentEncoding":"base64"`, `"contentMediaType":"text/html"`, `"":0`, `"items ":false`, `" type":"null"`, `"types":["null"]`, `"min":9`, `"values":["wrong"]`, `"nullable":true`, `"discriminator":{"propertyName":"a"}`, `"id":"http://elsewhere.invalid/"`, `"Ref":"#/none"`, `"defs":{"w":{"const":"wrong"}}`,
}

// caseVariants: keywords are case sensitive, these are none.
var caseVariants = []string{
	`"type":"null"`, `"type":5`, `"const":"wrong"`, `"const":null`, `"enum":["wrong"]`, `"required":["wrong"]`, `"properties":{"a":{"const":"wrong"},"p":{"const":"wrong"}}`, `"items":{"const":"wrong"}`, `"prefixItems":[{"const":"wrong"}]`, `"minItems":9`, `"maxItems":0`, `"minimum":99`, `"maximum":-99`, `"exclusiveMinimum":99`, `"exclusiveMaximum":-99`, `"multipleOf":1000`, `"pattern":"^wrong$"`, `"minLength":50`, `"maxLength":0`, `"format":"uuid"`,
	`"allOf":[{"const":"wrong"}]`, `"anyOf":[{"const":"wrong"}]`, `"oneOf":[{"const":"wrong"}]`, `"not":{}`, `"if":{}`, `"then":{"const":"wrong"}`, `"else":{"const":"wrong"}`, `"$ref":"#/$defs/none"`, `"$id":"http://elsewhere.invalid/x"`, `"$defs":{"w":{"const":"wrong"}}`, `"definitions":{"w":{"const":"wrong"}}`, `"additionalProperties":false`, `"additionalItems":{"const":"wrong"}`, `"unevaluatedItems":{"const":"wrong"}`, `"uniqueItems":true`, `"contains":{"const":"wrong"}`, `"minContains":7`, `"maxContains":0`,
	`"minProperties":9`, `"maxProperties":0`, `"patternProperties":{"":{"const":"wrong"}}`, `"dependentRequired":{"p":["q"]}`, `"dependentSchemas":{"p":{}}`, `"length":40`,
}

func upperAt(s string, i int) string { return s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:] }

var caseForms = []struct {
	name string
	f    func(k string) string
}{
	{"First", func(k string) string {
		if k[0] == '$' {
			return upperAt(k, 1)
		}
		return upperAt(k, 0)
	}},
	{"lasT", func(k string) string { return upperAt(k, len(k)-1) }},
	{"ALL", strings.ToUpper},
	{"fold", func(k string) string { return strings.NewReplacer("s", "\u017f", "k", "\u212a").Replace(k) }},
}

// insert adds a member to the schemas which where accepts.
func insertMember(t *jnode, member string, last bool, where func(i int) bool, what ...func(*jnode) bool) string {
	m := parseTree("{" + member + "}")
	t = t.clone()
	i := 0
	var at []*jnode
	t.schemas(func(s *jnode) {
		for _, k := range s.keys {
			if k == m.keys[0] {
				return
			}
		}
		if where(i) && (len(what) == 0 || what[0](s)) {
			at = append(at, s)
		}
		i++
	})
	for _, s := range at {
		if last {
			s.keys, s.kids = append(s.keys, m.keys[0]), append(s.kids, m.kids[0])
		} else {
			s.keys, s.kids = append([]string{m.keys[0]}, s.keys...), append([]*jnode{m.kids[0]}, s.kids...)
		}
	}
	return t.String()
}

func (n *jnode) has(keys ...string) bool {
	for _, k := range n.keys {
		for _, l := range keys {
			if k == l {
				return true
			}
		}
	}
	return false
}

// neutral: keywords with values that say nothing, next to type, const or enum.
var neutral = []string{
	`"minItems":0`, `"minLength":0`, `"minProperties":0`, `"required":[]`, `"uniqueItems":false`, `"then":{"const":"wrong"}`, `"else":{"const":"wrong"}`, `"if":{"const":1}`, `"minContains":3`, `"maxContains":0`, `"$defs":{"unused":{"type":"null"}}`, `"definitions":{"unused":{"const":"wrong"}}`,
	`"allOf":[{}]`, `"anyOf":[{}]`, `"oneOf":[{}]`, `"properties":{}`, `"patternProperties":{}`, `"dependentRequired":{}`, `"dependentSchemas":{}`, `"additionalItems":{"const":"wrong"}`,
}

// neutralUnless lists the keywords next to which a keyword does say something.
var neutralUnless = map[string][]string{
	"then": {"if"}, "else": {"if"}, "if": {"then", "else"}, "minContains": {"contains"}, "maxContains": {"contains"}, "additionalItems": {"items"},
}

func everywhere(int) bool { return true }

// respell lists what a document may be written as.
func respell(doc string, thorough bool) (out []respelling) {
	t := parseTree(doc)
	add := func(name, text string) {
		if text != doc {
			out = append(out, respelling{name: name, text: text})
		}
	}
	schemas := 0
	t.schemas(func(*jnode) { schemas++ })

	// white space
	for _, ws := range [][]string{{" "}, {"\n\t"}, {"\r\n"}, {"", " ", "\t\t", "\n"}} {
		p := &pen{str: quoted, space: func(i int) string { return ws[i%len(ws)] }}
		p.write(t)
		add(fmt.Sprintf("white space %q", ws), p.b.String()+ws[0])
	}
	// strings
	for i, f := range []func(string, bool) string{
		func(s string, _ bool) string { return uEscape(s) },
		func(s string, key bool) string {
			if key {
				return uEscape(s)
			}
			return js(s)
		},
		func(s string, key bool) string {
			if !key {
				return uEscape(s)
			}
			return js(s)
		},
		func(s string, _ bool) string { return strings.ReplaceAll(js(s), "/", `\/`) },
	} {
		p := &pen{str: f}
		p.write(t)
		add(fmt.Sprintf("escapes %d", i), p.b.String())
	}
	// order of members
	longest := 0
	t.each(func(n *jnode) {
		if n.kind == '{' {
			longest = max(longest, len(n.keys))
		}
	})
	for r := 0; r < longest; r++ {
		for _, rev := range []bool{false, true} {
			u := t.clone()
			u.each(func(n *jnode) {
				if n.kind != '{' || len(n.keys) < 2 {
					return
				}
				k := r % len(n.keys)
				n.keys = append(append([]string(nil), n.keys[k:]...), n.keys[:k]...)
				n.kids = append(append([]*jnode(nil), n.kids[k:]...), n.kids[:k]...)
				if rev {
					for i, j := 0, len(n.keys)-1; i < j; i, j = i+1, j-1 {
						n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
						n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
					}
				}
			})
			add(fmt.Sprintf("order %d %v", r, rev), u.String())
		}
	}
	// numbers
	for _, f := range numberForms {
		for _, which := range []string{"all", "sizes", "others"} {
			u := t.clone()
			u.numbers(func(key string, n *jnode) {
				if which == "sizes" && !sizeKeywords[key] || which == "others" && sizeKeywords[key] {
					return
				}
				n.text = f.f(n.text)
			}, "")
			add("numbers "+f.name+" "+which, u.String())
		}
	}
	// annotations and unknown keywords
	for i, a := range annotations {
		add("annotation "+a, insertMember(t, a, true, everywhere))
		if thorough {
			for s := 0; s < schemas; s++ {
				add(fmt.Sprintf("annotation %s at %d", a, s), insertMember(t, a, i%2 == 0, func(k int) bool { return k == s }))
			}
		}
	}
	for _, a := range neutral {
		m := parseTree("{" + a + "}")
		add("neutral "+a, insertMember(t, a, true, everywhere, func(s *jnode) bool { return s.has("type", "const", "enum") && !s.has(neutralUnless[m.keys[0]]...) }))
	}
	for _, k := range []string{"required", "type", "enum", "anyOf", "oneOf", "allOf"} {
		u := t.clone()
		u.schemas(func(s *jnode) {
			for i, key := range s.keys {
				if key == k && s.kids[i].kind == '[' {
					l := s.kids[i].kids
					for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
						l[a], l[b] = l[b], l[a]
					}
				}
			}
		})
		add("set "+k, u.String())
	}
	u := t.clone()
	u.schemas(func(s *jnode) {
		for i, key := range s.keys {
			if key == "type" && s.kids[i].kind == '"' {
				s.kids[i] = &jnode{kind: '[', kids: []*jnode{s.kids[i]}}
			}
		}
	})
	add("single type as list", u.String())
	for _, d := range []string{"https://json-schema.org/draft/2020-12/schema", "https://json-schema.org/draft/2019-09/schema", "http://json-schema.org/draft-07/schema#"} {
		add("$schema", insertMember(t, `"$schema":`+js(d), false, func(i int) bool { return i == 0 }))
	}
	for i, a := range caseVariants {
		m := parseTree("{" + a + "}")
		for j, f := range caseForms {
			k := f.f(m.keys[0])
			if k == m.keys[0] {
				continue
			}
			member := js(k) + ":" + m.kids[0].String()
			if j == 0 || thorough || i%3 == j-1 {
				add("keyword "+member, insertMember(t, member, j != 2, everywhere))
			}
			if thorough && j == 0 {
				for s := 0; s < schemas; s++ {
					add(fmt.Sprintf("keyword %s at %d", member, s), insertMember(t, member, true, func(k int) bool { return k == s }))
				}
			}
		}
	}
	return out
}

// ---- ways to hand a schema over

func quietParse(f func() (chaff.RootGenerator, error)) (p parsed) {
	p.panicV = runQuiet(env{}, func() {
		g, err := f()
		p.gen, p.errs = g, parseErrs(g, err)
	})
	return
}

var oddFiles = []string{"s.json", "a b.json", "a%20b.json", "a#b.json", "a?b.json", "\u00e9.json", "no extension", ".hidden", "x y/s.json", "x#y/s.json", "x%2fy/s.json", "x?y/s.json", "a+b&c=d.json", "schema.json.bak", "%", "a:b.json", "a\\b.json", "[::1].json", "x/../s2.json"}

func entries(doc string) (out []respelling) {
	add := func(name string, f func() (chaff.RootGenerator, error)) {
		out = append(out, respelling{name: "entry " + name, text: doc, parse: func() parsed { return quietParse(f) }})
	}
	add("ParseSchema", func() (chaff.RootGenerator, error) { return chaff.ParseSchema([]byte(doc), &chaff.ParserOptions{}) })
	add("ParseSchemaWithDefaults", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaWithDefaults([]byte(doc)) })
	add("ParseSchemaStringWithDefaults", func() (chaff.RootGenerator, error) { return chaff.ParseSchemaStringWithDefaults(doc) })
	for _, name := range []string{"a b", "a%20b", "a#b", "%", "a?b", "a\\b", "\u00e9"} {
		add("cwd "+name, func() (chaff.RootGenerator, error) {
			dir, err := os.MkdirTemp("", "spell-")
			mustNil(err)
			defer os.RemoveAll(dir)
			dir = filepath.Join(dir, name)
			mustNil(os.Mkdir(dir, 0o755))
			mustNil(os.Chdir(dir))
			defer os.Chdir("/")
			os.Setenv("PWD", dir)
			return chaff.ParseSchemaStringWithDefaults(doc)
		})
	}
	for i, name := range oddFiles {
		file := func(f func(dir, p string) (chaff.RootGenerator, error)) func() (chaff.RootGenerator, error) {
			return func() (chaff.RootGenerator, error) {
				dir, err := os.MkdirTemp("", "spell-")
				mustNil(err)
				defer os.RemoveAll(dir)
				p := filepath.Join(dir, name)
				mustNil(os.MkdirAll(filepath.Dir(p), 0o755))
				mustNil(os.MkdirAll(filepath.Join(dir, "x"), 0o755))
				mustNil(os.WriteFile(p, []byte(doc), 0o644))
				return f(dir, filepath.Join(dir, "/")+"/"+name)
			}
		}
		add("file "+name, file(func(_, p string) (chaff.RootGenerator, error) {
			return chaff.ParseSchemaFile(p, &chaff.ParserOptions{})
		}))
		if i%3 == 0 {
			add("file, defaults "+name, file(func(_, p string) (chaff.RootGenerator, error) { return chaff.ParseSchemaFileWithDefaults(p) }))
			add("link "+name, file(func(dir, p string) (chaff.RootGenerator, error) {
				mustNil(os.Symlink(p, filepath.Join(dir, "link #1.json")))
				return chaff.ParseSchemaFileWithDefaults(filepath.Join(dir, "link #1.json"))
			}))
			add("relative "+name, file(func(dir, _ string) (chaff.RootGenerator, error) {
				mustNil(os.Chdir(dir))
				defer os.Chdir("/")
				os.Setenv("PWD", dir)
				return chaff.ParseSchemaFile(name, &chaff.ParserOptions{})
			}))
			add("relative with ./ "+name, file(func(dir, _ string) (chaff.RootGenerator, error) {
				mustNil(os.Chdir(dir))
				defer os.Chdir("/")
				os.Setenv("PWD", dir)
				return chaff.ParseSchemaFileWithDefaults("./" + name)
			}))
		}
	}
	out = append(out, respelling{name: "entry GenerateWithDefaults", text: doc, gen: func(g chaff.RootGenerator) interface{} { return g.GenerateWithDefaults() }})
	return
}

// siblings: a document refers to one in another file; folders and files have odd names.
func siblings() (base string, out []respelling) {
	base = `{"type":"object","properties":{"p":{"enum":[1,2,3]},"q":{"enum":["q",1,2],"if":{"enum":[1,2,3]},"then":{"const":1}}},"required":["p","q"],"additionalProperties":false}`
	leaf := `{"enum":[1,2,3],"$defs":{"d":{"$ref":"#"}}}`
	esc := func(p string) string {
		return strings.NewReplacer("%", "%25", "#", "%23", "?", "%3F", " ", "%20", "[", "%5B", "]", "%5D", "\\", "%5C").Replace(p)
	}
	odd := []string{"plain", "a b", "a%20b", "a#b", "%", "a?b", "a\\b", "\u00e9", "a:b", "[::1]", "a+b&c=d;e,f@g!h$i'j(k)*~l", "a%2fb", "x%"}
	for _, folder := range odd {
		for _, file := range odd {
			if folder != "plain" && file != "plain" && folder != file {
				continue
			}
			for spelling := 0; spelling < 6; spelling++ {
				for via := 0; via < 10; via++ {
					name := fmt.Sprintf("sibling %q in %q, reference %d, access %d", file, folder, spelling, via)
					frag := []string{"", "#/$defs/d"}[spelling%2]
					var text string
					parse := func() (p parsed) {
						tmp, err := os.MkdirTemp("", "spell-")
						mustNil(err)
						defer os.RemoveAll(tmp)
						tmp, err = filepath.EvalSymlinks(tmp)
						mustNil(err)
						dir := filepath.Join(tmp, folder)
						mustNil(os.Mkdir(dir, 0o755))
						mustNil(os.WriteFile(filepath.Join(dir, file+".json"), []byte(leaf), 0o644))
						ref := "./" + esc(file+".json")
						switch spelling / 2 {
						case 1:
							ref = "../" + esc(folder) + "/" + esc(file+".json")
						case 2:
							if via == 5 || via == 6 {
								ref = "http://" + getNet().servers["$g"].addr + "/sib/" + esc(folder) + "/" + esc(file+".json")
								break
							}
							ref = "file://" + tmp + "/" + esc(folder) + "/" + esc(file+".json")
						}
						if via == 6 {
							ref += "?v=1&w=/x.json"
						}
						text = fmt.Sprintf(`{"type":"object","properties":{"p":{"$ref":%[1]s},"q":{"enum":["q",1,2],"if":{"$ref":%[1]s},"then":{"const":1}}},"required":["p","q"],"additionalProperties":false}`, js(ref+frag))
						main := filepath.Join(dir, "main.json")
						mustNil(os.WriteFile(main, []byte(text), 0o644))
						if via >= 7 {
							// handed over by a link: other documents lie next to the link
							there := filepath.Join(tmp, "links", "deep")
							for _, d := range []string{there, filepath.Join(tmp, "links", folder)} {
								mustNil(os.MkdirAll(d, 0o755))
								mustNil(os.WriteFile(filepath.Join(d, file+".json"), []byte(`{"const":"decoy","$defs":{"d":{"const":"decoy"}}}`), 0o644))
							}
							link := filepath.Join(there, "main.json")
							switch via {
							case 7:
								mustNil(os.Symlink(main, link))
							case 8:
								mustNil(os.Symlink("../../"+folder+"/main.json", filepath.Join(there, "first.json")))
								mustNil(os.Symlink("first.json", link))
							case 9:
								mustNil(os.Symlink(dir, filepath.Join(there, "there")))
								link = filepath.Join(there, "there", "main.json")
							}
							main = link
						}
						fetch := chaff.FileSystemFetchOptions{Enabled: true, AllowOutsideCwd: true}
						cwd := "/"
						switch via {
						case 1:
							fetch = chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}
						case 2:
							fetch = chaff.FileSystemFetchOptions{Enabled: true}
							cwd = dir
						}
						mustNil(os.Chdir(cwd))
						defer os.Chdir("/")
						os.Setenv("PWD", cwd)
						po := chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: fetch}}
						return quietParse(func() (chaff.RootGenerator, error) {
							switch via {
							case 5, 6:
								n := getNet()
								page := "/sib/" + folder + "/" + file + ".json"
								n.pages[page] = func(rw http.ResponseWriter, _ *netServer) { io.WriteString(rw, leaf) }
								defer delete(n.pages, page)
								po.DocumentFetchOptions = chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}
								po.RelativeTo = "http://" + n.servers["$g"].addr + "/sib/" + esc(folder) + "/"
							case 3:
								po.RelativeTo = "file://" + tmp + "/" + esc(folder) + "/"
							case 4:
								po.RelativeTo = "file://" + tmp + "/" + esc(folder) + "/main.json"
							default:
								return chaff.ParseSchemaFile(main, &po)
							}
							return chaff.ParseSchemaString(text, &po)
						})
					}
					out = append(out, respelling{name: name, text: base, parse: parse})
				}
			}
		}
	}
	return
}

// ---- names

// nameDocs: %K is a name, %P the name in a reference.
var nameDocs = []string{
	`{"type":"object","properties":{%K:{"enum":[1,2]},"z":{"const":0}},"required":[%K],"additionalProperties":false}`,
	`{"type":"object","properties":{%K:{"type":"object","properties":{%K:{"enum":[1,2]}},"required":[%K],"additionalProperties":false}},"additionalProperties":false}`,
	`{"type":"object","properties":{"p":{"$ref":"#/$defs/%P"}},"required":["p"],"additionalProperties":false,"$defs":{%K:{"enum":[1,2]}}}`,
	`{"type":"object","properties":{"p":{"$ref":"#/definitions/%P"}},"required":["p"],"additionalProperties":false,"definitions":{%K:{"enum":[1,2]}}}`,
	`{"allOf":[{"$ref":"#/$defs/%P"},{"maximum":1}],"$defs":{%K:{"enum":[1,2]}}}`,
	`{"type":"array","items":{"$ref":"#/$defs/q/properties/%P"},"minItems":1,"maxItems":2,"$defs":{"q":{"properties":{%K:{"enum":[1,2]}}}}}`,
	`{"type":"object","properties":{%K:{"enum":[1,2]},"p":{"$ref":"#/properties/%P"}},"required":[%K,"p"],"additionalProperties":false}`,
	`{"type":"object","properties":{%K:{"enum":[1,2]},"q":{"enum":[1,2]}},"required":[%K,"q"],"additionalProperties":false,"if":{"properties":{%K:{"const":1}}},"then":{"properties":{"q":{"const":1}}},"else":{"properties":{"q":{"const":2}}}}`,
	`{"oneOf":[{"type":"object","properties":{%K:{"const":1}},"required":[%K],"additionalProperties":false},{"type":"object","properties":{%K:{"const":2},"z":{"const":0}},"required":[%K,"z"],"additionalProperties":false}]}`,
	`{"allOf":[{"type":"object","properties":{%K:{"enum":[1,2,3]}},"required":[%K]},{"properties":{%K:{"minimum":2}},"additionalProperties":false}]}`,
	`{"type":"object","properties":{%K:{"enum":[1,2,3]}},"required":[%K],"additionalProperties":false,"not":{"properties":{%K:{"const":2}},"required":[%K]}}`,
	`{"type":"object","properties":{%K:{"const":1},"z":{"const":0}},"additionalProperties":false,"minProperties":1,"not":{"required":[%K]}}`,
	`{"enum":[{%K:1},{%K:{%K:2}},[%K],%K]}`,
	`{"const":{%K:[{%K:2}]}}`,
	`{"enum":[{%K:1},{%K:2}],"not":{"properties":{%K:{"const":2}},"required":[%K]}}`,
	`{"enum":[%K,"other"],"not":{"const":%K}}`,
	`{"enum":[{%K:{"a":1}},{"z":1}],"if":{"required":[%K]},"then":{"const":{%K:{"a":1}}}}`,
	`{"anyOf":[{"const":%K},{"type":"object","properties":{%K:{"anyOf":[{"const":1},{"const":%K}]}},"required":[%K],"additionalProperties":false}]}`,
	`{"type":"object","additionalProperties":{"const":1},"properties":{%K:{"const":2}},"required":[%K],"maxProperties":1}`,
	`{"type":"object","properties":{"x":{"oneOf":[{"$ref":"#/$defs/%P"},{"const":3}]}},"required":["x"],"additionalProperties":false,"$defs":{%K:{"enum":[1,2]}}}`,
	`{"type":"object","properties":{"x":{"enum":[1,2,3],"not":{"$ref":"#/$defs/%P"}}},"required":["x"],"additionalProperties":false,"$defs":{%K:{"const":2}}}`,
	`{"enum":[1,2,3],"if":{"$ref":"#/$defs/%P/not"},"then":{"const":1},"$defs":{%K:{"not":{"enum":[1,2]}}}}`,
}

var oddNames = []string{
	"$ref", "$id", "$defs", "$schema", "const", "enum", "type", "properties", "required", "items", "not", "if", "then", "allOf", "oneOf", "anyOf", "additionalProperties", "patternProperties", "prefixItems", "definitions", "default", "examples", "contains", "format", "pattern", "minimum",
	" ", "a b", "a/b", "/", "~", "a~b", "~0", "~1", "a~1b", "%", "%20", "a%2Fb", "#", "#/$defs/w", "a#b", "?", "a?b", "0", "1", "-1", "01", "-", ".", "..", "a.b", "a-b", "a_b", "_", "__proto__", "\"", "\\", "a\\b", "\u00e9", "\u65e5\u672c", "\U0001F600", "\u0000", "\n", "\t", "\u2028", "<&>", "'", "`", "^", "|", "{", "}", "[", "]", "[0]", "(", "$", "$$", "*", "+", ":", "http://x.invalid/", "file://x", "x.json", "a,b", ";", "=", "&", "@", "!", "null", "true", "A", "TYPE", "Const",
	"additional_0", "fallback_0", "", strings.Repeat("n", 300), "p2", "\u00c9", "e\u0301", "\ufeff", "\ufffd",
}

func nameDoc(doc, name string) string {
	esc := strings.NewReplacer("~", "~0", "/", "~1").Replace(name)
	esc = strings.NewReplacer("%24", "$", "%26", "&", "%2B", "+", "%3D", "=", "%3A", ":", "%40", "@").Replace(url.PathEscape(esc))
	return strings.ReplaceAll(strings.ReplaceAll(doc, "%K", js(name)), "%P", esc)
}

func renameBack(v interface{}, from, to string) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			if k == from {
				k = to
			}
			m[k] = renameBack(e, from, to)
		}
		return m
	case []interface{}:
		var l = make([]interface{}, 0, len(x))
		for _, e := range x {
			l = append(l, renameBack(e, from, to))
		}
		return l
	case string:
		if x == from {
			return to
		}
	}
	return v
}

const plainName = "name"

func names(doc string) (base string, out []respelling) {
	base = nameDoc(doc, plainName)
	for _, n := range oddNames {
		out = append(out, respelling{name: "name " + js(n), text: nameDoc(doc, n), back: func(raw string) string {
			v, err := decodeJSON([]byte(raw))
			if err != nil {
				return raw
			}
			return js(renameBack(v, n, plainName))
		}})
	}
	return
}

// ---- documents

var spellDocs = func() (out []string) {
	ctxs := []string{
		`%s`,
		`{"type":"object","properties":{"p":%s},"required":["p"],"additionalProperties":false}`,
		`{"type":"array","items":{"anyOf":[%s,{"const":"other"}]},"minItems":1,"maxItems":1}`,
		`{"oneOf":[{"const":"other"},%s]}`,
		`{"allOf":[{"not":{"const":"q"}},%s]}`,
		`{"type":"object","properties":{"p":%s,"r":{"$ref":"#/properties/p"}},"additionalProperties":false,"minProperties":1}`,
		`{"enum":[0,1,2,3,"a","bb","k","s",null,true,"n"],"if":%s,"then":{"enum":[1,2,"a","k",null,"s",true]},"else":{"enum":[0,3,"n"]}}`,
	}
	for i, t := range refTargets {
		for j, ctx := range ctxs {
			if j > 1 && (i+j)%4 != 0 {
				continue
			}
			doc := strings.Replace(ctx, "%s", t, 1)
			if strings.Contains(doc, `"#/$defs/w"`) {
				doc = doc[:len(doc)-1] + `,"$defs":{"w":` + wTarget + `}}`
			}
			out = append(out, doc)
		}
	}
	return
}()

func spellRun(c *jctx, base string, v respelling, opts genOpts, cfg searchCfg) {
	p := refPair{name: v.name + " of " + base, withRef: v.text, inlined: base, parse: v.parse, back: v.back, gen: v.gen, mayReject: strings.HasPrefix(v.name, "neutral "), what: [2]string{"as it is", "written differently (" + v.name + ")"}}
	runPair(c, p, opts, cfg)
}

func spellJobs(tier string) []job {
	th := tier == "thorough"
	cfg := searchCfg{smallN: 6, fullCap: 300, devBound: 1, devCap: 30, maxPos: 20, policies: []policy{polRR1, polLow, polHigh, polMix}}
	if th {
		cfg.fullCap, cfg.devBound, cfg.devCap = 3000, 1, 300
	}
	opts := genOpts{UniqueAttempts: 5, IfAttempts: 5, OneOfAttempts: 5, Cutoff: 20000}
	var out []job
	for _, doc := range spellDocs {
		out = append(out, job{key: "spelling of " + doc, run: func(c *jctx) {
			for _, v := range respell(doc, c.thorough()) {
				spellRun(c, doc, v, opts, cfg)
			}
			for _, v := range entries(doc) {
				o := opts
				if v.gen != nil {
					o = genOpts{}
				}
				spellRun(c, doc, v, o, cfg)
			}
		}})
	}
	for k := 0; k < 8; k++ {
		out = append(out, job{key: fmt.Sprint("siblings ", k), run: func(c *jctx) {
			base, vs := siblings()
			for i, v := range vs {
				if i%8 == k {
					spellRun(c, base, v, opts, cfg)
				}
			}
		}})
	}
	for _, doc := range nameDocs {
		out = append(out, job{key: "names in " + doc, run: func(c *jctx) {
			base, vs := names(doc)
			for _, v := range vs {
				spellRun(c, base, v, opts, cfg)
			}
		}})
	}
	return out
}

func init() {
	register(&property{
		id:    "C26",
		level: "model_checking",
		rule:  "one case per (document, respelling): white space, escapes, order of members, spelling of numbers, annotations, unknown keywords, keywords in other letter case, names of properties and definitions, and the function or file the document is handed over by; the document and its respelling are explored over the same choices and must have the same outcomes",
		jobs:  spellJobs,
		notes: []string{"documents with keys that occur twice are not explored"},
	})
}
