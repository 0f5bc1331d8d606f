package main

// C19: file references never read outside the allowed locations. Every scenario runs the real parser against a scratch
// tree; inotify reports which files were opened, whatever function opened them.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// fileTree is the scratch tree of a worker. Every file holds a constant of its own.
type fileTree struct {
	root  string // real path
	fd    int
	watch map[int32]string
	buf   []byte
}

// path of the file, relative to the root of the tree
var treeFiles = []string{
	"cwd/in.json", "cwd/sub/in2.json", "cwd/sub/deep/in3.json", "cwd/a..b.json", "cwd/..dots/x.json", "cwd/sp ace.json", "cwd/cwd/in.json",
	"cwd-evil/evil.json", "cwd2.json", "other/secret.json", "other/deep/secret2.json", "allowed/ok.json", "allowed/deep/ok2.json", "allowed-evil/e.json",
	"g[ab]/ok.json", "ga/bad.json", "one/single.json", "one/neighbour.json", "one/single.json.bak",
}

// link -> target, relative to the folder of the link
var treeLinks = [][2]string{
	{"cwd/link_in.json", "sub/in2.json"}, {"cwd/link_out.json", "../other/secret.json"}, {"cwd/linkdir", "../other"}, {"cwd/link_allowed.json", "../allowed/ok.json"},
	{"cwd/link_link.json", "link_out.json"}, {"cwd/sub/up", "../.."}, {"allowed/link_out.json", "../other/secret.json"}, {"allowed/linkdir", "../other"}, {"allowed/link_in.json", "deep/ok2.json"},
	{"other/back.json", "../cwd/in.json"}, {"other/backdir", "../cwd"}, {"allowedlink", "allowed"}, {"cwdlink", "cwd"}, {"cwd/dangling.json", "../nothing.json"}, {"cwd/loop.json", "loop.json"},
}

func mark(rel string) string { return "MARK<" + rel + ">" }

var theTree *fileTree

func getTree() *fileTree {
	if theTree != nil {
		return theTree
	}
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	root, err := os.MkdirTemp("", "tree-")
	must(err)
	root, err = filepath.EvalSymlinks(root)
	must(err)
	t := &fileTree{root: root, watch: map[int32]string{}, buf: make([]byte, 1<<16)}
	for _, f := range treeFiles {
		must(os.MkdirAll(filepath.Dir(filepath.Join(root, f)), 0o755))
		must(os.WriteFile(filepath.Join(root, f), []byte(`{"const":"`+mark(f)+`","definitions":{"d":{"const":"`+mark(f)+`"}}}`), 0o644))
	}
	for _, l := range treeLinks {
		must(os.Symlink(l[1], filepath.Join(root, l[0])))
	}
	must(os.MkdirAll(filepath.Join(root, "cwd", "emptydir.json"), 0o755))
	t.fd, err = syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			wd, err := syscall.InotifyAddWatch(t.fd, p, syscall.IN_OPEN|syscall.IN_ACCESS)
			if err != nil {
				return err
			}
			t.watch[int32(wd)], _ = filepath.Rel(root, p)
		}
		return err
	}))
	theTree = t
	return t
}

// opened drains the events: the files (relative to the root) opened since the last call.
func (t *fileTree) opened() []string {
	set := map[string]bool{}
	for {
		n, err := syscall.Read(t.fd, t.buf)
		if n <= 0 || err != nil {
			break
		}
		for off := 0; off < n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&t.buf[off]))
			name := string(bytes.TrimRight(t.buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(ev.Len)], "\x00"))
			off += syscall.SizeofInotifyEvent + int(ev.Len)
			if ev.Mask&syscall.IN_ISDIR == 0 && name != "" {
				set[filepath.Join(t.watch[ev.Wd], name)] = true
			}
			if ev.Mask&syscall.IN_Q_OVERFLOW != 0 {
				panic("harness: inotify queue overflow")
			}
		}
	}
	var out []string
	for f := range set {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// fileConf is one configuration. Paths starting with $R are below the root of the tree.
type fileConf struct {
	Disabled   bool     `json:"disabled,omitempty"`
	Outside    bool     `json:"outside,omitempty"`
	Paths      []string `json:"paths,omitempty"`
	RelativeTo string   `json:"relative_to,omitempty"`
	Cwd        string   `json:"cwd"`
	Via        string   `json:"via,omitempty"` // "file": ParseSchemaFile of the schema written to this folder
}

func (t *fileTree) abs(p string) string { return strings.ReplaceAll(p, "$R", t.root) }

func within(dir, p string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// allows is the specification: may the file at the real path p be read?
func (t *fileTree) allows(c fileConf, p string) bool {
	if c.Disabled {
		return false
	}
	cwd, _ := filepath.EvalSymlinks(t.abs(c.Cwd))
	if len(c.Paths) > 0 {
		for _, a := range c.Paths {
			a = t.abs(a)
			if !filepath.IsAbs(a) {
				a = filepath.Join(cwd, a)
			}
			if r, err := filepath.EvalSymlinks(a); err == nil && within(r, p) {
				return true
			}
		}
		return false
	}
	return c.Outside || within(cwd, p)
}

// target is the file a plain reference in a document of the folder dir points to, "" if there is none.
func (t *fileTree) target(dir, ref string) string {
	p := t.abs(ref)
	if i := strings.IndexByte(p, '#'); i >= 0 {
		p = p[:i]
	}
	p = strings.TrimPrefix(p, "file://")
	if !filepath.IsAbs(p) {
		p = filepath.Join(dir, p)
	}
	r, err := filepath.EvalSymlinks(filepath.Clean(p))
	if err != nil {
		return ""
	}
	if fi, err := os.Stat(r); err != nil || !fi.Mode().IsRegular() {
		return ""
	}
	return r
}

// references whose meaning is plain, and ones that only have to be harmless
func fileRefs(thorough bool) (plain, odd []string) {
	some := func(i int) bool { return thorough || i%2 == 0 }
	rel := []string{"in.json", "sub/in2.json", "./sub/deep/in3.json", "sub/../in.json", "a..b.json", "..dots/x.json", "../cwd/in.json", "../cwd/sub/in2.json", "cwd/in.json",
		"link_in.json", "link_out.json", "linkdir/secret.json", "linkdir/deep/secret2.json", "link_allowed.json", "link_link.json", "sub/up/other/secret.json", "sub/up/cwd/in.json", "sub/up/cwd-evil/evil.json",
		"../other/secret.json", "../other/deep/secret2.json", "../cwd-evil/evil.json", "../cwd2.json", "../other/back.json", "../other/backdir/in.json", "../allowed/ok.json", "../allowed/deep/ok2.json", "../allowed/link_out.json", "../allowed/linkdir/secret.json",
		"../allowed/link_in.json", "../allowedlink/ok.json", "../allowedlink/link_out.json", "../allowed-evil/e.json", "../allowed/../other/secret.json", "../allowed/../allowed-evil/e.json", "../g[ab]/ok.json", "../ga/bad.json",
		"../one/single.json", "../one/neighbour.json", "../one/single.json.bak", "ok.json", "deep/ok2.json", "secret.json", "nothing.json", "dangling.json", "loop.json", "emptydir.json", "sub"}
	for i, r := range rel {
		plain = append(plain, r)
		if !some(i) {
			continue
		}
		abs := "$R/cwd/" + r
		if strings.HasPrefix(r, "../") {
			abs = "$R/" + r[3:]
		}
		plain = append(plain, "file://"+abs)
		if thorough {
			plain = append(plain, abs, "file://$R/cwd/"+r, r+"#/definitions/d", "file://"+r, "./"+r, "sub/../"+r)
		}
	}
	plain = append(plain, "$R/cwd/in.json", "$R/other/secret.json", "$R/cwd/../other/secret.json", "$R/allowed/ok.json", "in.json#/definitions/d", "../other/secret.json#/definitions/d", "file://$R/other/secret.json#/definitions/d", "file://../other/secret.json")
	odd = []string{"file:$R/other/secret.json", "file:/$R/other/secret.json", "file:../other/secret.json", "FILE://$R/other/secret.json", "File:../other/secret.json", "file://localhost$R/other/secret.json", "file:////$R/other/secret.json", "%2e%2e/other/secret.json", "..%2fother%2fsecret.json", "file://$R/cwd/%2e%2e/other/secret.json",
		"../other/secret.json?x", "in.json/../../other/secret.json", "in.json?/../../../other/secret.json", "..\\other\\secret.json", " ../other/secret.json", "../other/secret.json ", "//$R/other/secret.json", "///$R/other/secret.json", "http://x.test/../other/secret.json", "https://x.test$R/other/secret.json", "ftp://$R/other/secret.json", "urn:$R/other/secret.json",
		"~/other/secret.json", "$R/other/secret.json\x00.json", "", "/", "file://", "file:///", "file://.", "..", ".", "../..", "../other", "../other/", "file://$R/other", "*", "../other/*", "../g?/bad.json", "?", "file://user:pw@host$R/other/secret.json", "file://$R/cwd/in.json/../../other/secret.json", "8dabc98a-527b-4f08-baba-315beb368097.json", "sp%20ace.json", "sp ace.json"}
	return
}

// where the reference stands in the schema. observe: the value of the target shows up in the output.
var filePositions = []struct {
	name, tmpl string
	observe    bool
}{
	{"root", `{"$ref":R}`, true},
	{"property", `{"type":"object","properties":{"a":{"$ref":R}},"required":["a"]}`, true},
	{"item", `{"type":"array","items":{"$ref":R},"minItems":1,"maxItems":1}`, true},
	{"allOf", `{"allOf":[{"$ref":R},{"type":"string"}]}`, true},
	{"nested allOf", `{"allOf":[{"allOf":[{"$ref":R}]}]}`, true},
	{"anyOf", `{"anyOf":[{"$ref":R}]}`, true},
	{"oneOf", `{"oneOf":[{"$ref":R},{"type":"integer"}]}`, false},
	{"if", `{"type":"string","if":{"$ref":R},"then":{"minLength":1}}`, false},
	{"not", `{"type":"integer","not":{"$ref":R}}`, false},
	{"contains", `{"type":"array","contains":{"$ref":R},"maxItems":1}`, true},
	{"additionalProperties", `{"type":"object","additionalProperties":{"$ref":R},"minProperties":1}`, true},
	{"unused definition", `{"type":"null","$defs":{"x":{"$ref":R}}}`, false},
	{"definition", `{"$ref":"#/$defs/x","$defs":{"x":{"$ref":R}}}`, true},
	{"merged definition", `{"allOf":[{"$ref":"#/$defs/x"}],"$defs":{"x":{"allOf":[{"$ref":R}]}}}`, true},
	{"below $id", `{"$id":"$ID","$ref":R}`, false},
	{"below $id in a definition", `{"$ref":"#/$defs/x","$defs":{"x":{"$id":"$ID","anyOf":[{"$ref":R}]}}}`, false},
}

// documents standing between the schema and the reference
var fileChains = []struct{ name, folder, outer string }{
	{"", "", ""},
	{"a document in the working directory", "cwd", `{"$ref":"$R/cwd/chain.json"}`},
	{"a document in the working directory, merged", "cwd", `{"allOf":[{"$ref":"file://$R/cwd/chain.json"}]}`},
	{"a document in another folder", "other/deep", `{"$ref":"file://$R/other/deep/chain.json"}`},
	{"a document in the allowed folder", "allowed/deep", `{"$ref":"file://$R/allowed/deep/chain.json"}`},
}

type fileReplay struct {
	Conf     fileConf `json:"conf"`
	Schema   string   `json:"schema"`
	Chain    string   `json:"chain,omitempty"`
	ChainDoc string   `json:"chain_doc,omitempty"`
	Ref      string   `json:"ref"`
}

type fileScenario struct {
	conf       fileConf
	pos, chain int
	ref        string
	plain      bool
}

// runFileScenario returns what is wrong ("" if nothing) and a class of the outcome.
func (t *fileTree) runFileScenario(s fileScenario) (kind, why, class string, rep fileReplay) {
	conf := s.conf
	p := filePositions[s.pos]
	q, _ := json.Marshal(t.abs(s.ref))
	doc := strings.ReplaceAll(strings.ReplaceAll(p.tmpl, "$ID", "file://"+t.root+"/other/base.json"), "R}", string(q)+"}")
	doc = strings.ReplaceAll(doc, "R,", string(q)+",")
	schema := doc
	ch := fileChains[s.chain]
	cwd, _ := filepath.EvalSymlinks(t.abs(conf.Cwd))
	refDir := cwd
	if conf.RelativeTo != "" {
		refDir = filepath.Dir(strings.TrimPrefix(t.abs(conf.RelativeTo), "file://"))
	}
	if conf.Via != "" {
		refDir = t.abs(conf.Via)
	}
	chainFile := ""
	if ch.name != "" {
		chainFile = filepath.Join(t.root, ch.folder, "chain.json")
		if err := os.WriteFile(chainFile, []byte(doc), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		schema = strings.ReplaceAll(ch.outer, "$R", t.root)
		refDir = filepath.Dir(chainFile)
	}
	main := ""
	if conf.Via != "" {
		main = filepath.Join(t.abs(conf.Via), "main.json")
		if err := os.WriteFile(main, []byte(schema), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	rep = fileReplay{s.conf, schema, chainFile, doc, s.ref}
	if err := os.Chdir(t.abs(conf.Cwd)); err != nil {
		panic("harness: " + err.Error())
	}
	os.Setenv("PWD", t.abs(conf.Cwd))
	paths := []string{}
	for _, a := range conf.Paths {
		paths = append(paths, t.abs(a))
	}
	po := &chaff.ParserOptions{RelativeTo: t.abs(conf.RelativeTo), DocumentFetchOptions: chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: !conf.Disabled, AllowOutsideCwd: conf.Outside, AllowedPaths: paths}}}
	t.opened()
	var gen chaff.RootGenerator
	var err error
	panicV := runQuiet(env{0, 0}, func() {
		if main != "" {
			gen, err = chaff.ParseSchemaFile(main, po)
		} else {
			gen, err = chaff.ParseSchemaString(schema, po)
		}
	})
	files := t.opened()
	if main != "" {
		os.Remove(main)
	}
	if chainFile != "" {
		os.Remove(chainFile)
	}
	if panicV != "" {
		return "panic", "parsing panics: " + panicV, "panic", rep
	}
	errs := parseErrs(gen, err)
	var text strings.Builder
	var vals []string
	if gen.Generator != nil && (len(files) > 1 || len(files) == 1 && main == "" || s.ref == "in.json") {
		for _, pol := range []policy{polLow, polHigh, polMix} {
			out := runCtl(env{0, 0}, execCfg{horizon: 5000}, nil, pol, func() interface{} {
				return gen.Generate(&chaff.GeneratorOptions{Rand: rand.NewRandUtil(1), MaximumIfAttempts: 3, MaximumOneOfAttempts: 3, MaximumReferenceDepth: 6})
			})
			b, _ := json.Marshal(out.val)
			vals = append(vals, strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(string(b)))
		}
		runQuiet(env{0, 0}, func() { fmt.Fprint(&text, gen) })
	}
	fmt.Fprint(&text, errs, vals, err)
	late := t.opened()
	files = append(files, late...)
	shown := strings.ReplaceAll(text.String(), t.root, "$R")

	mainRel, _ := filepath.Rel(t.root, main)
	for _, f := range files {
		if main != "" && f == mainRel {
			continue
		}
		if !t.allows(conf, filepath.Join(t.root, f)) {
			return "forbidden-read", fmt.Sprintf("the file %s is opened although it is not allowed", f), "", rep
		}
	}
	for _, f := range treeFiles {
		if !t.allows(conf, filepath.Join(t.root, f)) && strings.Contains(strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(shown), mark(f)) {
			return "leak", fmt.Sprintf("the content of %s is shown although it may not be read: %s", f, clip(shown, 300)), "", rep
		}
	}
	if len(late) > 0 {
		return "late-read", fmt.Sprintf("generating opens %v", late), "", rep
	}
	unreadable := false // the reference points to a folder, which only shows when it is read
	dirRef := strings.TrimPrefix(t.abs(s.ref), "file://")
	if !filepath.IsAbs(dirRef) {
		dirRef = filepath.Join(refDir, dirRef)
	}
	if fi, e := os.Stat(dirRef); e == nil && fi.IsDir() {
		unreadable = p.name == "unused definition"
	}
	if !s.plain || unreadable || strings.HasPrefix(conf.RelativeTo, "$R") {
		return "", "", fmt.Sprint("odd ", len(files), len(errs) > 0), rep
	}
	// the chain document itself must be allowed for the reference to be followed at all
	reach := true
	if chainFile != "" {
		reach = t.allows(conf, chainFile) && (strings.Contains(ch.outer, "file://") || !strings.HasPrefix(conf.RelativeTo, "http"))
	}
	for _, a := range conf.Paths {
		x := t.abs(a)
		if !filepath.IsAbs(x) {
			x = filepath.Join(cwd, x)
		}
		if _, e := filepath.EvalSymlinks(x); e != nil && !conf.Disabled {
			if err == nil {
				return "missing-path", "an allowed path that does not exist is not reported", "", rep
			}
			return "", "", "missing allowed path", rep
		}
	}
	tgt := t.target(refDir, s.ref)
	if strings.HasPrefix(conf.RelativeTo, "http") && chainFile == "" && !strings.HasPrefix(s.ref, "file://") {
		tgt = "" // there is no fetcher for it
	}
	if !reach || tgt == "" || !t.allows(conf, tgt) {
		if len(errs) == 0 {
			return "refusal-unreported", "the reference can not be followed but no error is reported", "", rep
		}
		return "", "", "refused", rep
	}
	if p.observe {
		rel, _ := filepath.Rel(t.root, tgt)
		if len(errs) > 0 {
			return "allowed-refused", fmt.Sprintf("%s may be read, but: %s", rel, clip(strings.ReplaceAll(fmt.Sprint(errs), t.root, "$R"), 300)), "", rep
		}
		for _, v := range vals {
			if !strings.Contains(v, mark(rel)) {
				return "wrong-value", fmt.Sprintf("the reference to %s yields %s", rel, clip(v, 200)), "", rep
			}
		}
	}
	return "", "", "followed", rep
}

func fileConfs(thorough bool) []fileConf {
	lists := [][]string{nil, {"$R/allowed"}, {"$R/allowed/"}, {"sub"}, {"../allowed", "sub"}, {"."}, {"$R/allowedlink"}, {"$R/one/single.json"}, {"$R/g[ab]"}, {"$R/nothing"}, {"$R/cwd", "$R/allowed/deep"}, {"$R"}, {"$R/allowed", "$R/cwd/sub/deep"}}
	rels := []string{"", "file://$R/cwd/", "file://$R/other/schema.json", "file://$R/allowed/schema.json", "http://x.test/s.json", "$R/cwd/schema.json"}
	var out []fileConf
	for li, l := range lists {
		for _, o := range []bool{false, true} {
			for ri, r := range rels {
				if !thorough && (ri > 0 && li > 2 && (li+ri)%3 != 0) {
					continue
				}
				out = append(out, fileConf{Outside: o, Paths: l, RelativeTo: r, Cwd: "$R/cwd"})
			}
			out = append(out, fileConf{Outside: o, Paths: l, Cwd: "$R/cwdlink"})
			if thorough || li < 3 {
				out = append(out, fileConf{Outside: o, Paths: l, Cwd: "$R/other"}, fileConf{Outside: o, Paths: l, Cwd: "$R/cwd", Via: "$R/other"}, fileConf{Outside: o, Paths: l, Cwd: "$R/cwd", Via: "$R/cwd/sub"})
			}
			if thorough || li < 2 {
				out = append(out, fileConf{Disabled: true, Outside: o, Paths: l, Cwd: "$R/cwd"}, fileConf{Disabled: true, Outside: o, Paths: l, Cwd: "$R/cwd", RelativeTo: "file://$R/cwd/x.json"})
			}
		}
	}
	return out
}

func confineJob(conf fileConf, thorough bool) job {
	cb, _ := json.Marshal(conf)
	name := "files " + string(cb)
	return job{key: name, run: func(c *jctx) {
		t := getTree()
		plain, odd := fileRefs(thorough)
		classes := map[string]int{}
		for ci := range fileChains {
			for pi := range filePositions {
				if !thorough && ci > 0 && pi%3 != ci%3 && pi > 1 {
					continue
				}
				for ri, ref := range append(append([]string(nil), plain...), odd...) {
					if !thorough && (ci > 0 && pi > 1 && ri%2 == 1 || ri >= len(plain) && pi > 3 && (ri+pi)%3 != 0) {
						continue
					}
					s := fileScenario{conf, pi, ci, ref, ri < len(plain)}
					c.key = fmt.Sprintf("%s | %s | %s | %q", name, filePositions[pi].name, fileChains[ci].name, ref)
					kind, why, class, rep := t.runFileScenario(s)
					c.St.Cases++
					c.St.Executions += 4
					c.St.States++
					c.St.Transitions++
					c.St.Complete++
					classes[class]++
					if kind != "" {
						c.report(kind, why+"\nschema: "+strings.ReplaceAll(rep.Schema, t.root, "$R")+" chain: "+strings.ReplaceAll(rep.ChainDoc, t.root, "$R"), rep)
					}
				}
				if heartbeat != nil {
					heartbeat()
				}
			}
		}
		for k, n := range classes {
			c.St.Outcomes++
			if k != "" {
				c.extra(strings.SplitN(k, " ", 2)[0], n)
			}
		}
		c.St.Samples = append(c.St.Samples, name)
		os.Chdir("/")
	}}
}

func init() {
	register(&property{
		id:    "C19",
		level: "model_checking",
		rule:  "Every combination of fetch options, reference, position and intermediate document is run on the real parser in a scratch tree. The files opened (as inotify reports) must be allowed by the configuration, no content of other files may show, refused references must be reported and allowed ones followed.",
		jobs: func(tier string) []job {
			var out []job
			for _, c := range fileConfs(tier == "thorough") {
				out = append(out, confineJob(c, tier == "thorough"))
			}
			return out
		},
		notes: []string{"The tree does not change while a schema is parsed (no replacement of links between check and use)."},
	})
}
