package main

// C21: references across documents. The reference model is a small resolver of its own that writes every reference's target
// in its place; the documents (in files or on a server) and the single document must generate the same.

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
)

// docSet maps paths ("x/y/m1.json") to documents; Main is the one that is parsed.
type docSet struct {
	Docs      map[string]string `json:"docs"`
	Main      string            `json:"main"`
	Transport string            `json:"transport"` // file | http | mixed (main in a file, the others on the server)
	Via       string            `json:"via"`       // file | string | folder
	Inlined   string            `json:"inlined,omitempty"`
}

const docRoot = "$W"

// base address of the documents, with a slash at the end
func (d *docSet) base(p string) string {
	if d.Transport == "http" || d.Transport == "mixed" && p != d.Main {
		return "$H/w/"
	}
	return "$W/"
}

var docFolders = []string{"", "x/", "x/y/", "z/"}

// refTo writes a reference from one document to another.
func (d *docSet) refTo(from, to, frag string, spelling int) string {
	abs := d.base(to) + to
	if strings.HasPrefix(abs, "$W") {
		abs = "file://" + abs
	}
	if d.base(from) != d.base(to) {
		return abs + frag
	}
	rel, _ := filepath.Rel(path.Dir("/"+from), "/"+to)
	switch spelling {
	case 0:
		return rel + frag
	case 1:
		return "./" + rel + frag
	case 2:
		return abs + frag
	case 3:
		up, _ := filepath.Rel(path.Dir("/"+from), "/")
		if up == "." {
			return "x/../" + to + frag
		}
		return up + "/" + to + frag
	}
	if i := strings.Index(abs, "$W"); i >= 0 {
		return abs[i:] + frag
	}
	return strings.TrimPrefix(abs, "$H") + frag
}

// resolve is the reference model: the target of a reference made in the document from.
func (d *docSet) resolve(from, ref string) (doc, frag string) {
	ref, frag, _ = strings.Cut(ref, "#")
	if ref == "" {
		return from, frag
	}
	for _, p := range []string{"file://$W/", "$W/", "$H/w/", "/w/"} {
		if strings.HasPrefix(ref, p) {
			return path.Clean(ref[len(p):]), frag
		}
	}
	return strings.TrimPrefix(path.Join(path.Dir("/"+from), ref), "/"), frag
}

// inline writes the targets of all references in their place.
func (d *docSet) inline(doc string, node interface{}, depth int) (interface{}, error) {
	if depth > 40 {
		return nil, fmt.Errorf("cyclic")
	}
	switch x := node.(type) {
	case map[string]interface{}:
		if r, ok := x["$ref"].(string); ok {
			to, frag := d.resolve(doc, r)
			text, ok := d.Docs[to]
			if !ok {
				return nil, fmt.Errorf("no document %s", to)
			}
			n, err := docPointer(mustDecode(text), frag)
			if err != nil {
				return nil, err
			}
			return d.inline(to, n, depth+1)
		}
		out := map[string]interface{}{}
		for k, y := range x {
			if k == "$defs" || k == "definitions" || k == "$id" {
				continue
			}
			z := y
			if k != "const" && k != "enum" {
				var err error
				if z, err = d.inline(doc, y, depth+1); err != nil {
					return nil, err
				}
			}
			out[k] = z
		}
		return out, nil
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, y := range x {
			z, err := d.inline(doc, y, depth+1)
			if err != nil {
				return nil, err
			}
			out[i] = z
		}
		return out, nil
	}
	return node, nil
}

func docPointer(n interface{}, frag string) (interface{}, error) {
	if frag == "" {
		return n, nil
	}
	for _, tok := range strings.Split(strings.TrimPrefix(frag, "/"), "/") {
		switch x := n.(type) {
		case map[string]interface{}:
			y, ok := x[tok]
			if !ok {
				return nil, fmt.Errorf("no %s", frag)
			}
			n = y
		case []interface{}:
			var i int
			if _, err := fmt.Sscan(tok, &i); err != nil || i >= len(x) {
				return nil, fmt.Errorf("no %s", frag)
			}
			n = x[i]
		default:
			return nil, fmt.Errorf("no %s", frag)
		}
	}
	return n, nil
}

// bundle writes all documents into one: for cyclic ones.
func (d *docSet) bundle() string {
	names := map[string]string{}
	defs := map[string]interface{}{}
	for p := range d.Docs {
		names[p] = strings.NewReplacer("/", "_", ".", "_").Replace(p)
	}
	var rewrite func(doc string, n interface{}) interface{}
	rewrite = func(doc string, n interface{}) interface{} {
		switch x := n.(type) {
		case map[string]interface{}:
			out := map[string]interface{}{}
			for k, y := range x {
				if k == "$id" {
					continue
				}
				out[k] = rewrite(doc, y)
				if r, ok := y.(string); ok && k == "$ref" {
					to, frag := d.resolve(doc, r)
					out[k] = "#/$defs/" + names[to] + frag
					if to == d.Main {
						out[k] = "#" + frag
					}
				}
			}
			return out
		case []interface{}:
			out := make([]interface{}, len(x))
			for i, y := range x {
				out[i] = rewrite(doc, y)
			}
			return out
		}
		return n
	}
	for p, t := range d.Docs {
		defs[names[p]] = rewrite(p, mustDecode(t))
	}
	root := defs[names[d.Main]].(map[string]interface{})
	delete(defs, names[d.Main])
	root["$defs"] = defs
	return js(root)
}

var docHome string

// publish puts the documents where the parser finds them and returns how to parse the main one.
func (d *docSet) publish() (parse func() parsed, main string) {
	n := getNet()
	if docHome == "" {
		dir, err := os.MkdirTemp("", "docs-")
		mustNil(err)
		docHome, err = filepath.EvalSymlinks(dir)
		mustNil(err)
	}
	mustNil(os.RemoveAll(filepath.Join(docHome, "w")))
	mustNil(os.MkdirAll(filepath.Join(docHome, "w"), 0o755))
	for _, f := range docFolders {
		mustNil(os.MkdirAll(filepath.Join(docHome, "w", f), 0o755))
	}
	for p := range n.pages {
		if strings.HasPrefix(p, "/w/") {
			delete(n.pages, p)
		}
	}
	w := filepath.Join(docHome, "w")
	fill := func(t string) string {
		return strings.ReplaceAll(strings.ReplaceAll(t, "$H", "http://"+n.servers["$g"].addr), docRoot, w)
	}
	for p, t := range d.Docs {
		text := fill(t)
		if strings.HasPrefix(d.base(p), "$H") {
			n.pages["/w/"+p] = func(rw http.ResponseWriter, self *netServer) { io.WriteString(rw, text) }
		} else {
			mustNil(os.WriteFile(filepath.Join(w, p), []byte(text), 0o644))
		}
	}
	main = fill(d.Docs[d.Main])
	po := chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{
		FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: d.Transport != "http", AllowOutsideCwd: true},
		HTTPFetchOptions:       chaff.HTTPFetchOptions{Enabled: d.Transport != "file", AllowInsecure: true}}}
	addr := d.base(d.Main) + d.Main
	if d.Transport != "http" {
		addr = "file://" + addr
	}
	return func() (p parsed) {
		o := po
		switch d.Via {
		case "string":
			o.RelativeTo = fill(addr)
		case "folder":
			o.RelativeTo = fill(strings.TrimSuffix(addr, path.Base(addr)))
		case "cwd":
			mustNil(os.Chdir(filepath.Dir(filepath.Join(w, d.Main))))
			defer os.Chdir("/")
			os.Setenv("PWD", filepath.Dir(filepath.Join(w, d.Main)))
		}
		defer func() {
			if x := recover(); x != nil {
				p.panicV = fmt.Sprint(x, " at ", panicSite())
			}
		}()
		var g chaff.RootGenerator
		var err error
		if d.Via == "file" {
			g, err = chaff.ParseSchemaFile(filepath.Join(w, d.Main), &o)
		} else {
			g, err = chaff.ParseSchemaString(main, &o)
		}
		p.gen, p.errs = g, parseErrs(g, err)
		p.errs = strings.ReplaceAll(n.unx(p.errs), docHome, "$D")
		return p
	}, main
}

var docContexts = []string{
	`%s`,
	`{"type":"object","properties":{"a":%s},"required":["a"],"additionalProperties":false}`,
	`{"allOf":[%s]}`,
	`{"type":"array","items":%s,"minItems":1,"maxItems":1}`,
	`{"anyOf":[{"const":0},%s]}`,
	`{"oneOf":[%s,{"const":0}]}`,
	`{"allOf":[{"type":["string","array","object","number"]},{"allOf":[%s]}]}`,
	`{"type":"object","additionalProperties":%s,"minProperties":1,"maxProperties":1}`,
	`{"type":"array","prefixItems":[{"const":0},%s],"minItems":2,"maxItems":2}`,
	`{"if":{"const":7},"then":{"const":7},"else":%s}`,
	`{"type":"object","properties":{"a":{"allOf":[%s]},"b":{"anyOf":[%s]}},"required":["a","b"],"additionalProperties":false}`,
	`{"type":"object","patternProperties":{"^a$":%s},"minProperties":1,"maxProperties":1,"additionalProperties":false}`,
	`{"enum":["leaf@","leaf@x/","leaf@x/y/","leaf@z/","part@","part@x/","part@x/y/","part@z/","own@","own@x/","own@x/y/","own@z/"],"not":%s}`,
	`{"enum":["leaf@","leaf@x/","leaf@x/y/","leaf@z/","part@","part@x/","part@x/y/","part@z/","own@","own@x/","own@x/y/","own@z/"],"if":%s,"else":{"not":{"const":"leaf@"}}}`,
}

// what a document looks like for the reference to a part of it
var docParts = []struct{ frag, tmpl string }{
	{"", `%s`},
	{"#/$defs/q", `{"const":"wrong","$defs":{"q":%s,"w":{"const":"own@%f"}}}`},
	{"#", `%s`},
	{"#/properties/q", `{"type":"object","properties":{"q":%s,"r":{"const":"wrong"}}}`},
	{"#/definitions/q", `{"type":"null","definitions":{"q":%s,"w":{"const":"wrong"}},"$defs":{"w":{"const":"own@%f"}}}`},
	{"#/$defs/p", `{"const":"wrong","$defs":{"q":%s,"p":{"$ref":"#/$defs/q"},"w":{"const":"own@%f"}}}`},
}

func folderOf(p string) string { return strings.TrimPrefix(path.Dir("/"+p)+"/", "/") }

func newDocSet(transport, via string) *docSet {
	d := &docSet{Docs: map[string]string{}, Transport: transport, Via: via}
	for _, f := range docFolders {
		d.Docs[f+"l.json"] = `{"const":"leaf@` + f + `","$defs":{"q":{"const":"part@` + f + `"}}}`
		for _, n := range []string{"m1.json", "m2.json"} {
			d.Docs[f+n] = `{"const":"decoy@` + f + n + `","$defs":{"q":{"const":"decoy"}}}`
		}
	}
	return d
}

// put writes a document that holds ctx around the reference, in the given part.
func (d *docSet) put(p string, ctx, part int, ref string) {
	body := strings.ReplaceAll(docContexts[ctx], "%s", `{"$ref":`+js(ref)+`}`)
	t := strings.ReplaceAll(docParts[part].tmpl, "%s", body)
	t = strings.ReplaceAll(t, "%f", folderOf(p))
	if part == 0 || part == 2 {
		v := mustDecode(t).(map[string]interface{})
		v["$defs"] = map[string]interface{}{"w": map[string]interface{}{"const": "own@" + folderOf(p)}}
		t = js(v)
	}
	d.Docs[p] = t
}

func (d *docSet) withIds(mode int) *docSet {
	if mode == 0 {
		return d
	}
	for p, t := range d.Docs {
		v, ok := mustDecode(t).(map[string]interface{})
		if !ok || v["$ref"] != nil {
			continue
		}
		id := path.Base(p)
		if mode == 1 {
			id = d.base(p) + p
			if strings.HasPrefix(id, "$W") {
				id = "file://" + id
			}
		}
		v["$id"] = id
		d.Docs[p] = js(v)
	}
	return d
}

func (d *docSet) pair(name string) (refPair, bool) {
	if d.Inlined != "" {
		b, _ := json.Marshal(d.Docs)
		return refPair{name: name, withRef: string(b), inlined: d.Inlined}, true
	}
	in, err := d.inline(d.Main, mustDecode(d.Docs[d.Main]), 0)
	text, deep := "", false
	if err != nil {
		if err.Error() != "cyclic" {
			return refPair{}, false
		}
		text, deep = d.bundle(), true
	} else {
		text = js(in)
	}
	used := map[string]string{}
	for p, t := range d.Docs {
		if strings.Contains(t, "$ref") {
			used[p] = t
		}
	}
	ub, _ := json.Marshal(used)
	return refPair{name: name, withRef: string(ub), inlined: text, deep: deep}, true
}

type docPair struct {
	name string
	make func() *docSet
}

func docScenarios(th bool) []docPair {
	var out []docPair
	pick := func(weight int, idx ...int) bool {
		if th {
			return true
		}
		s := 0
		for i, x := range idx {
			s += x * (2*i + 1)
		}
		return s%weight == 0
	}
	transports := []string{"file", "http", "mixed"}
	vias := []string{"file", "string", "folder", "cwd"}
	ok := func(tr, via string) bool { return tr != "http" || via == "string" || via == "folder" }
	add := func(name string, f func() *docSet) { out = append(out, docPair{name, f}) }
	leafFrag := []string{"", "#/$defs/q"}
	for ti, tr := range transports {
		for vi, via := range vias {
			if !ok(tr, via) {
				continue
			}
			for f0i, f0 := range docFolders {
				// one reference into another document
				for fli, fl := range docFolders {
					for ci := range docContexts {
						for sp := 0; sp < 5; sp++ {
							for qi, q := range leafFrag {
								if !pick(7, ti, vi, f0i, fli, ci, sp, qi) || tr == "mixed" && sp > 0 {
									continue
								}
								tr, via, f0, fl, ci, sp, q := tr, via, f0, fl, ci, sp, q
								add(fmt.Sprintf("docs %s %s main in %q -> %q%s spelled %d in %s", tr, via, f0, fl, q, sp, docContexts[ci]), func() *docSet {
									d := newDocSet(tr, via)
									d.Main = f0 + "main.json"
									d.put(d.Main, ci, 0, d.refTo(d.Main, fl+"l.json", q, sp))
									return d
								})
							}
						}
					}
				}
				// two: the second one made in the fetched document
				for f1i, f1 := range docFolders {
					for c0 := range docContexts {
						for c1 := range docContexts {
							for pi := range docParts {
								for k := 0; k < 4; k++ {
									sp := (c0 + c1 + pi + k + f0i) % 5
									id := (c0 + f1i + k) % 5
									if !pick(53, ti, vi, f0i, f1i, c0, c1, pi, k) || th && (ti*7+vi*5+f0i*3+f1i+c0*11+c1*13+pi*17+k*19)%4 != 0 {
										continue
									}
									tr, via, f0, f1, c0, c1, pi, k := tr, via, f0, f1, c0, c1, pi, k
									add(fmt.Sprintf("docs %s %s main in %q -> %q part %q -> %d spelled %d, ids %d, in %s and %s", tr, via, f0, f1, docParts[pi].frag, k, sp, id, docContexts[c0], docContexts[c1]), func() *docSet {
										d := newDocSet(tr, via)
										d.Main = f0 + "main.json"
										m := f1 + "m1.json"
										d.put(d.Main, c0, 0, d.refTo(d.Main, m, docParts[pi].frag, sp))
										switch k {
										case 0:
											d.put(m, c1, pi, d.refTo(m, f1+"l.json", "", sp%2))
										case 1:
											d.put(m, c1, pi, d.refTo(m, f1+"l.json", "#/$defs/q", 0))
										case 2:
											d.put(m, c1, pi, "#/$defs/w")
											if pi == 3 {
												d.put(m, c1, pi, d.refTo(m, "x/l.json", "", 0))
											}
										case 3:
											d.put(m, c1, pi, d.refTo(m, "z/l.json", "#/$defs/q", sp%4))
										}
										if id < 3 && tr != "mixed" {
											d.withIds(id)
										}
										return d
									})
								}
							}
						}
					}
				}
			}
			// three documents, and two ways to the same one
			for f1i, f1 := range docFolders {
				for f2i, f2 := range docFolders {
					for c := range docContexts {
						for pi := range docParts {
							for k := 0; k < 4; k++ {
								if !pick(23, ti, vi, f1i, f2i, c, pi, k) || th && (ti+vi+f1i+f2i+c+pi+k)%3 != 0 {
									continue
								}
								tr, via, f1, f2, c, pi, k := tr, via, f1, f2, c, pi, k
								add(fmt.Sprintf("docs %s %s chain %q %q part %q shape %d in %s", tr, via, f1, f2, docParts[pi].frag, k, docContexts[c]), func() *docSet {
									d := newDocSet(tr, via)
									d.Main = "x/main.json"
									m1, m2 := f1+"m1.json", f2+"m2.json"
									frag := docParts[pi].frag
									d.put(m2, c%6, pi, d.refTo(m2, f2+"l.json", "", 0))
									d.put(m1, (c+pi)%6, pi, d.refTo(m1, m2, frag, 0))
									to1, to2, tol := d.refTo(d.Main, m1, frag, k), d.refTo(d.Main, m2, frag, 0), d.refTo(d.Main, "x/l.json", "", 0)
									switch k {
									case 0:
										d.put(d.Main, c, 0, to1)
									case 1: // first over the other document, then directly
										d.Docs[d.Main] = fmt.Sprintf(`{"type":"object","properties":{"a":{"allOf":[{"$ref":%s}]},"b":{"$ref":%s},"c":{"$ref":%s}},"required":["a","b","c"],"additionalProperties":false}`, js(to1), js(to2), js(tol))
									case 2: // merged one after the other
										d.Docs[d.Main] = fmt.Sprintf(`{"type":"array","prefixItems":[{"allOf":[{"$ref":%s}]},{"allOf":[{"$ref":%s}]},{"allOf":[{"$ref":%s}]},{"$ref":%s}],"minItems":4,"maxItems":4}`, js(to2), js(to1), js(tol), js(tol))
									case 3:
										d.Docs[d.Main] = fmt.Sprintf(`{"anyOf":[{"$ref":%s},{"type":"object","properties":{"k":{"$ref":%s},"l":{"$ref":"#/$defs/h"}},"required":["k","l"],"additionalProperties":false}],"$defs":{"h":{"$ref":%s},"w":{"const":"own@x/"}}}`, js(to1), js(tol), js(to2))
									}
									return d
								})
							}
						}
					}
				}
			}
			// mutually recursive documents
			for f0i, f0 := range docFolders {
				for f1i, f1 := range docFolders {
					for k, shape := range []string{
						`{"type":"object","properties":{"v":{"const":"%n"},"c":{"$ref":%r}},"required":["v"],"additionalProperties":false}`,
						`{"anyOf":[{"$ref":%l},{"type":"array","items":{"$ref":%r},"minItems":1,"maxItems":1}]}`,
						`{"type":"object","properties":{"v":{"allOf":[{"$ref":%l}]},"c":{"anyOf":[{"type":"null"},{"$ref":%r}]}},"required":["v","c"],"additionalProperties":false}`,
					} {
						if tr == "mixed" || via == "folder" || via == "cwd" || !pick(2, ti, vi, f0i, f1i, k) {
							continue
						}
						tr, via, f0, f1, shape := tr, via, f0, f1, shape
						add(fmt.Sprintf("docs %s %s recursive %q %q %s", tr, via, f0, f1, shape), func() *docSet {
							d := newDocSet(tr, via)
							d.Main = f0 + "main.json"
							m := f1 + "m1.json"
							fillShape := func(at, to string) {
								d.Docs[at] = strings.NewReplacer("%n", at, "%r", js(d.refTo(at, to, "", 0)), "%l", js(d.refTo(at, folderOf(at)+"l.json", "", 0))).Replace(shape)
							}
							fillShape(d.Main, m)
							fillShape(m, d.Main)
							return d
						})
					}
				}
			}
		}
	}
	// fetched documents that hold schemas with an $id of their own: references in those are relative to that $id
	ids := []string{"r/o.json", "http://verif.invalid/d/o.json", "urn:verif:o"}
	inner := []string{"#/$defs/x", "%i#/$defs/x", "s.json", "#/$defs/y", "%i#/$defs/y"}
	entry := []string{"#/$defs/o/$defs/z", "#/$defs/e"}
	for ti, tr := range transports {
		for vi, via := range vias {
			if !ok(tr, via) {
				continue
			}
			for f1i, f1 := range docFolders {
				for ci, ctx := range docContexts {
					for ii, id := range ids {
						for ri, ref := range inner {
							for ei, e := range entry {
								if ref == "s.json" && ii == 2 || !pick(5, ti, vi, f1i, ci, ii, ri, ei) {
									continue
								}
								tr, via, f1, ctx, id, ref, e, ci := tr, via, f1, ctx, id, ref, e, ci
								add(fmt.Sprintf("docs %s %s embedded in %q id %s reference %s entered by %s in %s", tr, via, f1, id, ref, e, ctx), func() *docSet {
									d := newDocSet(tr, via)
									d.Main = "x/main.json"
									m := f1 + "m1.json"
									right := `{"enum":["leaf@","part@","own@x/"]}`
									put := func(x string) string {
										return strings.ReplaceAll(strings.ReplaceAll(ctx, "%s", x), `{"const":0}`, `{"const":1}`)
									}
									at := strings.ReplaceAll(ref, "%i", id)
									s := `{"$id":"s.json","allOf":[` + right + `]}`
									if ii == 2 {
										s = `{}`
									}
									d.Docs[m] = `{"const":"wrong","$defs":{"x":{"const":"wrong"},"y":{"const":"wrong"},"e":{"$ref":` + js(id+"#/$defs/z") + `},"o":{"$id":` + js(id) + `,"$defs":{"x":` + right + `,"y":{"$ref":"#/$defs/x"},"s":` + s + `,"z":` + put(`{"$ref":`+js(at)+`}`) + `}}}}`
									d.put(d.Main, (ci+ri)%5, 0, d.refTo(d.Main, m, e, 0))
									d.Inlined = strings.ReplaceAll(docContexts[(ci+ri)%5], "%s", put(right))
									return d
								})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// references across documents that lead nowhere
func docDangling(th bool) []docPair {
	var out []docPair
	refs := []string{"none.json", "x/none.json", "l.json#/$defs/none", "l.json#/properties/q", "m1.json#/$defs/q/properties/x", "$A/none.json", "m2.json#/$defs/q/none"}
	for ti, tr := range []string{"file", "http", "mixed"} {
		for ci, ctx := range docContexts {
			for ri, r := range refs {
				for depth := 0; depth < 3; depth++ {
					for pi := range docParts {
						if depth == 0 && pi > 0 || !th && (ti+ci+ri+depth+pi)%5 != 0 {
							continue
						}
						tr, ci, r, depth, pi := tr, ci, r, depth, pi
						add := fmt.Sprintf("docs %s dangling %s at depth %d part %q in %s", tr, r, depth, docParts[pi].frag, ctx)
						out = append(out, docPair{add, func() *docSet {
							d := newDocSet(tr, "string")
							d.Main = "x/main.json"
							chain := []string{d.Main, "x/y/m1.json", "z/m2.json"}[:depth+1]
							last := chain[depth]
							ref := strings.ReplaceAll(r, "$A", strings.TrimSuffix(d.base("z/l.json"), "/"))
							if strings.HasPrefix(ref, "$W") {
								ref = "file://" + ref
							}
							for i, p := range chain {
								part := pi
								if i == 0 {
									part = 0
								}
								if i < depth {
									d.put(p, []int{1, 2, 4}[(i+ci)%3], part, d.refTo(p, chain[i+1], docParts[pi].frag, 0))
								}
							}
							lp := pi
							if depth == 0 {
								lp = 0
							}
							if tr == "mixed" && depth == 0 && !strings.Contains(ref, ":") {
								ref = "$H/w/x/" + ref
							}
							d.put(last, ci, lp, ref)
							return d
						}})
					}
				}
			}
		}
	}
	return out
}

func runDocDangling(c *jctx, p docPair) {
	c.key = "ref " + p.name
	d := p.make()
	parse, _ := d.publish()
	r := parse()
	c.St.Cases++
	c.St.Executions++
	c.St.States++
	c.St.Outcomes++
	c.St.Complete++
	if r.panicV != "" {
		c.report("parse-panic:"+normKind(r.panicV), "ParseSchema panicked: "+r.panicV, d)
		return
	}
	if _, err := d.inline(d.Main, mustDecode(d.Docs[d.Main]), 0); err == nil {
		panic("harness: " + p.name + " is not dangling")
	}
	if r.errs == "" {
		o := runCtl(env{}, execCfg{}, nil, polLow, func() interface{} { return r.gen.Generate(genOpts{}.options()) })
		b, _ := json.Marshal(o.val)
		c.report("not-rejected", "a reference to nothing was accepted without any recorded error; it generates "+clip(string(b)+o.panicV, 200), d)
	}
}

// runDocSending: documents of any size, however they are sent and written, and any number of them.
func runDocSending(c *jctx, transport string) {
	n := getNet()
	d := &docSet{Docs: map[string]string{"root.json": `{}`}, Main: "root.json", Transport: transport, Via: "string"}
	_, _ = d.publish()
	w := filepath.Join(docHome, "w")
	base := "file://" + w + "/"
	if transport == "http" {
		base = "http://" + n.servers["$g"].addr + "/w/"
	}
	put := func(name, text string, send func(rw http.ResponseWriter, text string)) {
		if transport == "http" {
			n.pages["/w/"+name] = func(rw http.ResponseWriter, self *netServer) { send(rw, text) }
		} else {
			mustNil(os.WriteFile(filepath.Join(w, name), []byte(text), 0o644))
		}
	}
	plain := func(rw http.ResponseWriter, text string) { io.WriteString(rw, text) }
	try := func(key, root, want string) {
		c.key = "sending " + transport + " " + key
		c.St.Cases++
		c.St.Executions++
		c.St.States++
		c.St.Outcomes++
		c.St.Complete++
		if heartbeat != nil {
			heartbeat()
		}
		var p parsed
		func() {
			defer func() {
				if x := recover(); x != nil {
					p.panicV = fmt.Sprint(x, " at ", panicSite())
				}
			}()
			g, err := chaff.ParseSchemaString(root, &chaff.ParserOptions{RelativeTo: base + "root.json", DocumentFetchOptions: chaff.DocumentFetchOptions{
				FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: transport != "http", AllowOutsideCwd: true},
				HTTPFetchOptions:       chaff.HTTPFetchOptions{Enabled: transport == "http", AllowInsecure: true}}})
			p.gen, p.errs = g, parseErrs(g, err)
		}()
		replay := map[string]interface{}{"schema": clip(root, 1000), "transport": transport, "case": key}
		if p.panicV != "" || p.errs != "" {
			c.report("sending-refused", "the documents are refused: "+clip(n.unx(p.panicV+p.errs), 300), replay)
			return
		}
		o := runCtl(env{}, execCfg{}, nil, polLow, func() interface{} {
			return p.gen.Generate(&chaff.GeneratorOptions{MaximumReferenceDepth: 500, MaximumGenerationSteps: 5000, CutoffGenerationSteps: 5000})
		})
		b, _ := json.Marshal(o.val)
		if string(b) != want {
			c.report("sending-differs", fmt.Sprintf("%s is generated instead of %s", clip(string(b)+o.panicV, 300), clip(want, 300)), replay)
		}
	}
	put("leaf.json", `{"definitions":{"l":{"const":"LEAF"}}}`, plain)
	refs := `{"type":"object","properties":{"p":{"$ref":"sent.json#/definitions/p"},"l":{"$ref":"sent.json#/definitions/l"}},"required":["p","l"],"additionalProperties":false}`
	sends := map[string]func(rw http.ResponseWriter, text string){"plain": plain}
	if transport == "http" {
		for _, t := range []string{"application/json", "application/schema+json; charset=utf-8", "text/plain", "application/octet-stream", "text/html", "x", ""} {
			sends["type "+t] = func(rw http.ResponseWriter, text string) {
				rw.Header()["Content-Type"] = []string{t}
				io.WriteString(rw, text)
			}
		}
		for _, k := range []int{1, 100, 4096, 32768} {
			sends[fmt.Sprint("pieces of ", k)] = func(rw http.ResponseWriter, text string) {
				k := max(k, len(text)/20)
				for len(text) > 0 {
					m := min(k, len(text))
					io.WriteString(rw, text[:m])
					rw.(http.Flusher).Flush()
					text = text[m:]
				}
			}
		}
		sends["length"] = func(rw http.ResponseWriter, text string) {
			rw.Header().Set("Content-Length", fmt.Sprint(len(text)))
			rw.Header().Set("Cache-Control", "no-store")
			rw.Header().Set("Content-Location", "/elsewhere/x.json")
			rw.WriteHeader(200)
			io.WriteString(rw, text)
		}
	}
	sizes := []int{0, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 1 << 20, 3 << 20}
	if c.thorough() {
		sizes = append(sizes, 1, 1023, 1024, 1025, 8191, 8192, 8193, 16384, 131072, 10<<20, 17<<20)
	}
	for _, size := range sizes {
		x := strings.Repeat("x", size)
		for shape, text := range map[string]string{
			"long string": `{"description":"` + x + `","definitions":{"p":{"const":"PART"},"l":{"$ref":"leaf.json#/definitions/l"}}}`,
			"blanks":      strings.Repeat("\n", size) + `{"definitions":{"p":{"const":"PART"},"l":{"$ref":"leaf.json#/definitions/l"}}}` + strings.Repeat(" ", size),
			"members":     `{"definitions":{` + strings.Repeat(`"u":{"const":0},`, size/16) + `"p":{"const":"PART"},"l":{"$ref":"leaf.json#/definitions/l"}}}`,
		} {
			for how, send := range sends {
				put("sent.json", text, send)
				try(fmt.Sprintf("%d bytes of %s %s", size, shape, how), refs, `{"l":"LEAF","p":"PART"}`)
			}
		}
	}
	// any number of documents, next to each other and one behind the other
	counts := []int{1, 2, 3, 7, 16, 33}
	if c.thorough() {
		counts = append(counts, 4, 5, 10, 64, 100, 150)
	}
	for _, k := range counts {
		var props, want []string
		for i := 0; i < k; i++ {
			put(fmt.Sprintf("wide%d.json", i), fmt.Sprintf(`{"const":%d,"definitions":{"p":{"const":"p%d"}}}`, i, i), plain)
			next := fmt.Sprintf(`{"type":"object","properties":{"n":{"$ref":"chain%d.json"}},"required":["n"],"additionalProperties":false}`, i+1)
			if i == k-1 {
				next = `{"const":"END"}`
			}
			put(fmt.Sprintf("chain%d.json", i), next, plain)
			alias := fmt.Sprintf(`{"$ref":"alias%d.json"}`, i+1)
			if i == k-1 {
				alias = `{"const":"END"}`
			}
			put(fmt.Sprintf("alias%d.json", i), alias, plain)
			part := fmt.Sprintf(`{"definitions":{"d":{"$ref":"part%d.json#/definitions/d"}}}`, i+1)
			if i == k-1 {
				part = `{"definitions":{"d":{"const":"END"}}}`
			}
			put(fmt.Sprintf("part%d.json", i), part, plain)
			props = append(props, fmt.Sprintf(`{"$ref":"wide%d.json"},{"$ref":"wide%d.json#/definitions/p"}`, i, i))
			want = append(want, fmt.Sprintf(`%d,"p%d"`, i, i))
		}
		try(fmt.Sprint(k, " documents in a row"), `{"type":"array","prefixItems":[`+strings.Join(props, ",")+`],"items":false}`, `[`+strings.Join(want, ",")+`]`)
		try(fmt.Sprint(k, " documents within each other"), `{"$ref":"chain0.json"}`, strings.Repeat(`{"n":`, k-1)+`"END"`+strings.Repeat(`}`, k-1))
		for _, ctx := range []string{`%s`, `{"allOf":[%s,{"type":"string"}]}`, `{"anyOf":[%s]}`, `{"oneOf":[%s,{"const":0}]}`} {
			for _, r := range []string{`{"$ref":"alias0.json"}`, `{"$ref":"part0.json#/definitions/d"}`} {
				if k > 40 && ctx != `%s` {
					continue
				}
				try(fmt.Sprint(k, " references in a row ", r, " in ", ctx), fmt.Sprintf(ctx, r), `"END"`)
			}
		}
	}
	if len(c.St.Samples) == 0 {
		c.St.Samples = append(c.St.Samples, transport+": documents of up to 3 MiB in several shapes and ways of sending; up to 33 documents next to and behind each other")
	}
}

func multiDocJobs(tier string) []job {
	th := tier == "thorough"
	cfg := searchCfg{smallN: 6, fullCap: 200, devBound: 1, devCap: 30, maxPos: 20, policies: []policy{polRR1, polLow, polMix}}
	if th {
		cfg.fullCap, cfg.devCap = 2000, 300
	}
	opts := genOpts{UniqueAttempts: 5, IfAttempts: 20, OneOfAttempts: 20, Cutoff: 500, RefDepth: 6, Bypass: true}
	var out []job
	for _, transport := range []string{"file", "http"} {
		out = append(out, job{key: "sending " + transport, run: func(c *jctx) { runDocSending(c, transport) }})
	}
	chunked := func(l []docPair, run func(c *jctx, p docPair)) {
		per := 20
		for i := 0; i < len(l); i += per {
			chunk := l[i:min(i+per, len(l))]
			out = append(out, job{key: chunk[0].name, run: func(c *jctx) {
				for _, p := range chunk {
					run(c, p)
					if heartbeat != nil {
						heartbeat()
					}
				}
			}})
		}
	}
	chunked(docScenarios(th), func(c *jctx, p docPair) {
		d := p.make()
		rp, ok := d.pair(p.name)
		if !ok {
			panic("harness: " + p.name)
		}
		rp.parse, _ = d.publish()
		runPair(c, rp, opts, cfg)
	})
	chunked(docDangling(th), runDocDangling)
	return out
}

func init() {
	register(&property{
		id:    "C21",
		level: "model_checking",
		rule:  "One case per layout of documents (folders, transport, spelling and position of the references, part referred to, chain and recursion shape): the documents and the single document in which an independent resolver has written the targets in place are explored over the same choices and must generate the same; references that lead nowhere must be reported. Documents of the same name with other contents lie in every other folder.",
		jobs:  multiDocJobs,
		notes: []string{"The server is on the loopback network.", "$id values of documents, where present, agree with the address of their document; those of embedded schemas are arbitrary."},
	})
}
