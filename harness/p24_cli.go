package main

// C24: the command line tool. The built tool is run with every combination of input, output and flags;
// its randomness is chosen by the explorer, so that what it prints is compared with what the library
// generates for the same schema, options and choices.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

type cliRun struct {
	args    []string
	dir     string
	stdin   string // "pipe", "file" or "none" (a character device)
	data    string
	choices []uint64
	free    bool // the randomness is not controlled
}

type cliOut struct {
	code     int
	out, err string
	timeout  bool
}

func (r cliRun) run(c *jctx) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), r.args...)
	cmd.Dir = r.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = os.Environ()
	if !r.free {
		cmd.Env = append(cmd.Env, "VERIF_CLI_CHOICES="+strings.Trim(fmt.Sprint(r.choices), "[]"))
	}
	switch r.stdin {
	case "pipe":
		cmd.Stdin = struct{ io.Reader }{strings.NewReader(r.data)}
	case "file":
		f, err := os.CreateTemp("", "stdin-")
		mustNil(err)
		defer os.Remove(f.Name())
		f.WriteString(r.data)
		f.Seek(0, 0)
		defer f.Close()
		cmd.Stdin = f
	}
	err := cmd.Run()
	c.St.Executions++
	c.St.States++
	if heartbeat != nil {
		heartbeat()
	}
	o := cliOut{code: cmd.ProcessState.ExitCode(), out: so.String(), err: se.String(), timeout: ctx.Err() != nil}
	if _, exit := err.(*exec.ExitError); err != nil && !exit && !o.timeout {
		panic("harness: " + err.Error())
	}
	return o
}

func (r cliRun) replay(extra string) map[string]interface{} {
	return map[string]interface{}{"arguments": r.args, "stdin": r.stdin, "data": clip(r.data, 2000), "choices": clipChoices(r.choices), "note": extra}
}

func (o cliOut) String() string {
	return fmt.Sprintf("exit code %d, output %q, error output %q", o.code, clip(o.out, 300), clip(o.err, 300))
}

var addressRE = regexp.MustCompile(`document '[^']*'`)

var uuidRE = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

// noUUID: documents without an address are given a random one.
func noUUID(s string) string {
	return regexp.MustCompile(`file:/[^|' ]*UUID.json`).ReplaceAllString(uuidRE.ReplaceAllString(s, "UUID"), "DOC")
}

// oneDocument tells whether a text is exactly one JSON document.
func oneDocument(s string) (interface{}, bool) {
	if strings.TrimSpace(s) == "" {
		return nil, false
	}
	v, err := decodeJSON([]byte(s))
	return v, err == nil && json.Valid([]byte(s))
}

// lastDocument finds the document that ends a text, starting in a line of its own.
func lastDocument(s string) (string, bool) {
	for i := len(s); i >= 0; i-- {
		if i > 0 && s[i-1] != '\n' {
			continue
		}
		if json.Valid([]byte(s[i:])) {
			return s[i:], true
		}
	}
	return "", false
}

// ---- inputs, outputs, formats

type cliInput struct {
	name, text string
	libErr     bool // the library refuses to parse it
	errs       []string
	valid      bool // parsed without anything recorded
}

var cliInputs = []string{
	`{"type":"object","properties":{"a":{"enum":[1,"x",null]},"b":{"type":"array","items":{"type":"boolean"},"maxItems":2}},"required":["a"],"additionalProperties":false}`,
	`{"enum":[1,"x",[1,{"k":null}],{"a":{"b":[]}},true,null,-0.5]}`,
	`{"const":"<a> & \"b\" \u2028 \\ ünï"}`, `{"type":"string","pattern":"^[ab]{2}$"}`, `{"type":"array","items":{"type":"integer","minimum":1,"maximum":3},"minItems":1,"maxItems":2}`,
	`{"type":"integer","minimum":5,"maximum":3}`, `{"type":"object","properties":{"a":{"type":"string","minLength":4,"maxLength":2}},"required":["a"]}`, `{"$ref":"#/$defs/missing"}`, `{"type":"object","properties":{"a":{"$ref":"#/$defs/x"}},"required":["a"],"$defs":{"x":{"const":1}}}`,
	`{}`, `true`, `null`, `[1]`, `"text"`, `17`, ``, ` `, `{`, `{"type":}`, `{"type":"string"} x`, `{"type":"string"}{"type":"null"}`, `{"type":17}`, `{"type":"object","properties":[]}`, `{"minimum":"1"}`, "\ufeff{}", `not json`, `{"type":"unknown"}`,
}

func cliInputOf(text string) cliInput {
	in := cliInput{text: text}
	var p chaff.RootGenerator
	var err error
	if pv := runQuiet(env{}, func() { p, err = chaff.ParseSchema([]byte(text), &chaff.ParserOptions{}) }); pv != "" {
		err = fmt.Errorf("panic")
	}
	in.libErr = err != nil
	if err == nil && p.Metadata != nil && p.Metadata.Errors != nil {
		for _, e := range p.Metadata.Errors.CollectErrors() {
			in.errs = append(in.errs, noUUID(fmt.Sprint(e)))
		}
	}
	in.valid = err == nil && len(in.errs) == 0
	return in
}

func tmpDir() string {
	d, err := os.MkdirTemp("", "cli-")
	mustNil(err)
	d, err = filepath.EvalSymlinks(d)
	mustNil(err)
	return d
}

// runGrid: one schema text in every way of passing it, with every way of writing the result.
func runGrid(c *jctx, text string) {
	in := cliInputOf(text)
	judgeable := in.valid && json.Valid([]byte(text))
	var judge *validator
	if judgeable {
		judge = newValidator(mustDecode(text))
	}
	// what is generated without any flags is what is to be generated in every way of passing it
	for n, choices := range [][]uint64{nil, {1, 1, 1, 1}, {2, 1, 0, 1, 2}, {3, 0, 1}, {4, 2, 2}, {5, 1}} {
		baseline := ""
		for _, way := range []string{"-file abs", "--file rel", "--file=rel", "pipe", "file", "file and pipe"} {
			for _, target := range []string{"", "new", "existing", "empty", "link", "missing dir", "dir"} {
				if n > 0 && !c.thorough() && (target != "" && target != "new" || strings.HasPrefix(way, "--")) {
					continue
				}
				for _, format := range []bool{false, true} {
					for _, verbose := range []bool{false, true} {
						c.key = fmt.Sprintf("cli %s | %s | output %s | format %v | verbose %v", clip(text, 80), way, target, format, verbose)
						c.St.Cases++
						d := tmpDir()
						r := cliRun{dir: d, choices: choices}
						mustNil(os.WriteFile(filepath.Join(d, "s.json"), []byte(text), 0o600))
						switch way {
						case "-file abs":
							r.args = append(r.args, "-file", filepath.Join(d, "s.json"))
						case "--file rel":
							r.args = append(r.args, "--file", "s.json")
						case "--file=rel":
							r.args = append(r.args, "--file=./s.json")
						case "file and pipe":
							r.args, r.stdin, r.data = append(r.args, "-file", "s.json"), "pipe", `{"const":"from the pipe"}`
						default:
							r.stdin, r.data = way, text
						}
						if format {
							r.args = append(r.args, "-format")
						}
						if verbose {
							r.args = append(r.args, "-verbose")
						}
						dest := filepath.Join(d, "out.json")
						switch target {
						case "existing":
							mustNil(os.WriteFile(dest, []byte("precious"), 0o600))
						case "empty":
							mustNil(os.WriteFile(dest, nil, 0o600))
						case "link":
							mustNil(os.WriteFile(filepath.Join(d, "linked"), []byte("precious"), 0o600))
							mustNil(os.Symlink("linked", dest))
						case "missing dir":
							dest = filepath.Join(d, "no", "out.json")
						case "dir":
							mustNil(os.Mkdir(dest, 0o700))
						}
						if target != "" {
							r.args = append(r.args, "-output", dest)
						}
						o := r.run(c)
						written, werr := os.ReadFile(dest)
						cleanDir := func() { os.RemoveAll(d) }
						bad := func(kind, why string) {
							c.report(kind, why+": "+o.String(), r.replay(fmt.Sprintf("schema %s, %s, output %s (now %q)", text, way, target, clip(string(written), 200))))
						}
						writeFails := target == "existing" || target == "empty" || target == "link" || target == "missing dir" || target == "dir"
						switch {
						case o.timeout:
							bad("timeout", "no end within 30 seconds")
						case strings.Contains(o.err, "goroutine "):
							bad("crash", "the tool crashed")
						case in.libErr || writeFails:
							if o.code == 0 {
								bad("exit-code", "exit code 0 although there is no result")
							}
							if strings.TrimSpace(o.err) == "" {
								bad("no-message", "failure without a message")
							}
							if o.out != "" && !(verbose && !in.libErr) {
								bad("output-on-failure", "output although it fails")
							}
							if target == "new" && werr == nil {
								bad("file-on-failure", "a file is written although it fails")
							}
							if (target == "existing" || target == "link") && string(written) != "precious" || target == "empty" && len(written) > 0 {
								bad("overwritten", "an existing file is changed")
							}
							if target == "missing dir" && werr == nil {
								bad("file-on-failure", "a file is written although it fails")
							}
						case o.code != 0 || o.err != "":
							bad("exit-code", "failure although the schema is parsed")
						default:
							doc := o.out
							if target == "new" {
								doc = string(written)
								if werr != nil {
									bad("no-file", "no file is written")
								}
								if o.out != "" && !verbose {
									bad("output-and-file", "something is printed as well as written to the file")
								}
							} else if verbose {
								doc, _ = lastDocument(o.out)
							}
							v, ok := oneDocument(doc)
							if !ok {
								bad("not-json", "the result is not one JSON document")
								break
							}
							if verbose {
								for _, e := range in.errs {
									if !strings.Contains(addressRE.ReplaceAllString(noUUID(o.out), "document DOC"), addressRE.ReplaceAllString(e, "document DOC")) {
										bad("verbose", fmt.Sprintf("the recorded error %q is not printed", clip(e, 200)))
									}
								}
							}
							compact := js(v)
							var ind, com bytes.Buffer
							json.Indent(&ind, []byte(doc), "", "    ")
							json.Compact(&com, []byte(doc))
							if format && ind.String() != strings.TrimSuffix(doc, "\n") || !format && com.String() != strings.TrimSuffix(doc, "\n") {
								bad("format", "the result is not formatted as requested")
							}
							if baseline == "" {
								baseline = compact
								if judge != nil {
									if w := judge.check(v); w != "" {
										bad("invalid", "not valid: "+w)
									}
								}
							} else if baseline != compact && in.valid {
								bad("different", "another way of passing the same schema gives "+clip(baseline, 200))
							}
						}
						cleanDir()
						c.St.Complete++
						c.St.Outcomes++
					}
				}
			}
		}
		if in.libErr {
			break
		}
	}
	if len(c.St.Samples) == 0 {
		c.St.Samples = append(c.St.Samples, "every way of input, output and format for "+text)
	}
}

// ---- schemas of any size, however they are divided into lines

func runSizes(c *jctx) {
	d := tmpDir()
	defer os.RemoveAll(d)
	file, out := filepath.Join(d, "s.json"), filepath.Join(d, "out.json")
	sizes := []int{0, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20}
	if c.thorough() {
		sizes = append(sizes, 1, 511, 512, 513, 1023, 1024, 1025, 8191, 8192, 8193, 32767, 32768, 32769, 131071, 131072, 131073, 5<<20)
	}
	for _, n := range sizes {
		blank := func(s string) string { return strings.Repeat(s, n/len(s)) }
		text := strings.Repeat("x", n)
		for name, schema := range map[string]string{
			"one line": `{"description":"` + text + `","const":"END"}`, "lines": `{` + blank("\n") + `"const":"END"}`, "lines of two": "{" + blank("\r\n") + `"const":"END"}`, "returns": "{" + blank("\r") + `"const":"END"}`,
			"spaces": `{"const":` + blank(" ") + `"END"}`, "end": `{"const":"END"}` + blank("\n"), "front": blank(" \n") + `{"const":"END"}`, "long value": `{"const":"` + text + `END"}`,
			"long line and others": "{\n\"description\":\"" + text + "\",\n\"const\":\n\"END\"\n}\n", "unfinished": `{"const":"END","description":"` + text + `"`,
		} {
			for _, way := range []string{"pipe", "file", "-file"} {
				for _, target := range []string{"", "new"} {
					c.key = fmt.Sprintf("cli size %d %s | %s | output %s", n, name, way, target)
					c.St.Cases++
					c.St.Complete++
					c.St.Outcomes++
					r := cliRun{dir: d, stdin: way, data: schema}
					if way == "-file" {
						r.stdin, r.data, r.args = "", "", []string{"-file", file}
						mustNil(os.WriteFile(file, []byte(schema), 0o600))
					}
					if target != "" {
						r.args = append(r.args, "-output", out)
					}
					o := r.run(c)
					got := o.out
					if target != "" {
						b, _ := os.ReadFile(out)
						got = string(b)
						os.Remove(out)
					}
					want := `"END"`
					if name == "long value" {
						want = `"` + text + `END"`
					}
					switch {
					case name == "unfinished":
						if o.code == 0 || got != "" || strings.TrimSpace(o.err) == "" {
							c.report("size", "an unfinished document is not refused: "+o.String(), r.replay(""))
						}
					case o.code != 0 || strings.TrimSuffix(got, "\n") != want:
						c.report("size", fmt.Sprintf("the result is %s instead of %s: %s", clip(got, 200), clip(want, 200), o), r.replay(""))
					}
				}
			}
		}
	}
	c.St.Samples = append(c.St.Samples, "schemas and results of many sizes, divided into lines in many ways")
}

// ---- invocations that do not generate anything

func runMeta(c *jctx) {
	d := tmpDir()
	defer os.RemoveAll(d)
	schema := filepath.Join(d, "s.json")
	mustNil(os.WriteFile(schema, []byte(`{"const":"GENERATED"}`), 0o600))
	flags := []string{"file", "output", "allowed-hosts", "allow-insecure", "allow-outside-cwd", "allowed-paths", "bypass-cyclic-reference-check", "maximum-reference-depth", "maximum-if-attempts", "maximum-oneof-attempts", "maximum-generation-steps", "cutoff-generation-steps", "format", "verbose", "version"}
	out := filepath.Join(d, "out.json")
	extras := [][]string{nil, {"-file", schema}, {"-file", schema, "-output", out}, {"-file", filepath.Join(d, "none.json")}, {"-verbose", "-format"}}
	for _, stdin := range []string{"none", "pipe"} {
		for _, e := range extras {
			for _, meta := range []string{"-help", "--help", "-version", "--version", "-h"} {
				for _, front := range []bool{true, false} {
					r := cliRun{dir: d, stdin: stdin, data: `{"const":"GENERATED"}`, args: append([]string{meta}, e...)}
					if !front {
						r.args = append(append([]string{}, e...), meta)
					}
					c.key = "cli meta " + strings.ReplaceAll(strings.Join(r.args, " "), d, "D") + " " + stdin
					o := r.run(c)
					c.St.Cases++
					c.St.Complete++
					c.St.Outcomes++
					all := o.out + o.err
					if o.code != 0 || strings.Contains(all, "GENERATED") {
						c.report("meta", "help and version do nothing else: "+o.String(), r.replay(""))
					}
					if _, err := os.Stat(out); err == nil {
						c.report("meta", "help and version write a file", r.replay(""))
						os.Remove(out)
					}
					if strings.Contains(meta, "version") {
						if !strings.Contains(strings.ToLower(all), "version") {
							c.report("meta", "no version is printed: "+o.String(), r.replay(""))
						}
						continue
					}
					for _, f := range flags {
						if !strings.Contains(all, "-"+f) {
							c.report("meta", "the help does not mention -"+f, r.replay(""))
						}
					}
				}
			}
		}
		// flags that do not exist or have no proper value
		for _, bad := range [][]string{{"-nonsense"}, {"-maximum-reference-depth", "x"}, {"-maximum-reference-depth=1.5"}, {"-cutoff-generation-steps", ""}, {"-format=maybe"}, {"-allow-insecure=2x"}, {"-maximum-if-attempts", "99999999999999999999"}, {"-file"}, {"-output"}} {
			for _, e := range extras[:3] {
				if len(bad) == 1 && (bad[0] == "-file" || bad[0] == "-output") && len(e) > 0 {
					continue
				}
				r := cliRun{dir: d, stdin: stdin, data: `{"const":"GENERATED"}`, args: append(append([]string{}, e...), bad...)}
				c.key = "cli bad flags " + strings.ReplaceAll(strings.Join(r.args, " "), d, "D") + " " + stdin
				o := r.run(c)
				c.St.Cases++
				c.St.Complete++
				c.St.Outcomes++
				if o.code == 0 || o.out != "" || strings.TrimSpace(o.err) == "" {
					c.report("bad-flags", "flags that cannot be understood are to be refused: "+o.String(), r.replay(""))
				}
				if _, err := os.Stat(out); err == nil {
					c.report("bad-flags", "a file is written although flags cannot be understood", r.replay(""))
					os.Remove(out)
				}
			}
		}
	}
	// no schema at all, and files that cannot be read
	for _, args := range [][]string{nil, {"-format"}, {"-output", out}, {"-verbose"}, {"-file", ""}} {
		r := cliRun{dir: d, stdin: "none", args: args}
		c.key = "cli no schema " + strings.ReplaceAll(strings.Join(args, " "), d, "D")
		o := r.run(c)
		c.St.Cases++
		c.St.Complete++
		if o.code == 0 || o.out != "" || strings.TrimSpace(o.err) == "" {
			c.report("no-schema", "there is no schema: "+o.String(), r.replay(""))
		}
	}
	for _, f := range []string{filepath.Join(d, "none.json"), d, filepath.Join(schema, "x"), "none.json", strings.Repeat("x", 5000), "a\tb"} {
		for _, stdin := range []string{"none", "pipe"} {
			for _, tail := range [][]string{nil, {"-output", out}, {"-verbose"}} {
				r := cliRun{dir: d, stdin: stdin, data: `{"const":"GENERATED"}`, args: append([]string{"-file", f}, tail...)}
				c.key = "cli unreadable " + clip(strings.ReplaceAll(strings.Join(r.args, " "), d, "D"), 100) + " " + stdin
				o := r.run(c)
				c.St.Cases++
				c.St.Complete++
				if o.code == 0 || o.out != "" || strings.TrimSpace(o.err) == "" || strings.Contains(o.err, "goroutine ") {
					c.report("unreadable", "the schema cannot be read: "+o.String(), r.replay(""))
				}
				if _, err := os.Stat(out); err == nil {
					c.report("unreadable", "a file is written although the schema cannot be read", r.replay(""))
					os.Remove(out)
				}
			}
		}
	}
}

// ---- flags for the generator

type cliFlag struct {
	name   string
	values []string
	set    func(o *chaff.GeneratorOptions, v string)
}

func intFlag(name string, vals []string, f func(o *chaff.GeneratorOptions, n int)) cliFlag {
	return cliFlag{name, vals, func(o *chaff.GeneratorOptions, v string) {
		n := 0
		fmt.Sscan(v, &n)
		f(o, n)
	}}
}

var cliFlags = []cliFlag{
	{"bypass-cyclic-reference-check", []string{"true", "false", ""}, func(o *chaff.GeneratorOptions, v string) { o.BypassCyclicReferenceCheck = v != "false" }},
	intFlag("maximum-reference-depth", []string{"1", "2", "5", "0"}, func(o *chaff.GeneratorOptions, n int) { o.MaximumReferenceDepth = n }),
	intFlag("maximum-if-attempts", []string{"1", "2", "3"}, func(o *chaff.GeneratorOptions, n int) { o.MaximumIfAttempts = n }),
	intFlag("maximum-oneof-attempts", []string{"1", "2", "3"}, func(o *chaff.GeneratorOptions, n int) { o.MaximumOneOfAttempts = n }),
	intFlag("maximum-generation-steps", []string{"1", "2", "5"}, func(o *chaff.GeneratorOptions, n int) { o.MaximumGenerationSteps = n }),
	intFlag("cutoff-generation-steps", []string{"1", "3", "8"}, func(o *chaff.GeneratorOptions, n int) { o.CutoffGenerationSteps = n }),
}

// cliOptionSchemas: what each of them is sensitive to is asserted below.
var cliOptionSchemas = []struct{ schema, flags string }{
	{`{"type":"object","properties":{"n":{"$ref":"#"},"k":{"enum":[1,2]}},"required":["n"],"additionalProperties":false}`, "bypass-cyclic-reference-check maximum-reference-depth"},
	{`{"$ref":"#/$defs/a","$defs":{"a":{"$ref":"#/$defs/b"},"b":{"$ref":"#/$defs/c"},"c":{"const":"end"}}}`, "maximum-reference-depth"},
	{`{"oneOf":[{"enum":[0,1]},{"enum":[1,2]}]}`, "maximum-oneof-attempts"},
	{`{"enum":[0,1,2],"if":{"enum":[0,1]},"then":{"const":2}}`, "maximum-if-attempts"},
	{`{"type":"array","items":{"type":"array","items":{"type":"boolean"},"maxItems":2},"minItems":3,"maxItems":3}`, "maximum-generation-steps cutoff-generation-steps"},
	{`{"type":"array","items":{"type":"object","properties":{"a":{"const":1},"b":{"const":2}},"required":["a"],"additionalProperties":false},"minItems":2,"maxItems":5}`, "maximum-generation-steps cutoff-generation-steps"},
	{`{"type":"object","properties":{"s":{"type":"string","pattern":"^[ab]$"},"t":{"type":"string","format":"ipv4"},"u":{"type":"string","minLength":3,"maxLength":5}},"required":["s","t","u"],"additionalProperties":false}`, ""},
	{`{"type":["integer","null"],"minimum":2,"maximum":9}`, ""},
}

func runCliOptions(c *jctx, schema, sensitive string, combo []int, vals []string) {
	opts := chaff.GeneratorOptions{MaximumReferenceDepth: 10, MaximumIfAttempts: 100, MaximumOneOfAttempts: 100, MaximumGenerationSteps: 1000, CutoffGenerationSteps: 2000}
	var args []string
	for i, k := range combo {
		f := cliFlags[k]
		f.set(&opts, vals[i])
		if vals[i] == "" {
			args = append(args, "-"+f.name)
		} else {
			args = append(args, "-"+f.name+"="+vals[i])
		}
	}
	c.key = "cli options " + schema + " | " + strings.Join(args, " ")
	d := tmpDir()
	defer os.RemoveAll(d)
	file := filepath.Join(d, "s.json")
	mustNil(os.WriteFile(file, []byte(schema), 0o600))
	n := 40
	if c.thorough() {
		n = 400
	}
	cfg := searchCfg{smallN: 6, fullCap: n, policies: []policy{polRR1, polHigh}}
	seen := map[string]bool{}
	k := 0 // number of runs
	st := search(env{}, cfg, func() interface{} {
		g, err := chaff.ParseSchema([]byte(schema), &chaff.ParserOptions{})
		if err != nil {
			return nil
		}
		o := opts
		o.Rand = rand.NewRandUtil(1)
		return g.Generate(&o)
	}, func(o *outcome, _ policy, _ int) bool {
		want, err := json.Marshal(o.val)
		if err != nil || o.horizon {
			return true
		}
		if seen[string(want)] && len(seen) > 12 {
			return true
		}
		seen[string(want)] = true
		// from a pipe: a document that is read from a file has another address than the one of the library
		r := cliRun{dir: d, args: args, stdin: "pipe", data: schema, choices: o.choices()}
		if k++; k%2 == 0 && !uuidRE.Match(want) {
			r.args, r.stdin = append(append([]string{}, args...), "-file", file), ""
		}
		got := r.run(c)
		if got.code != 0 || noUUID(strings.TrimSpace(got.out)) != noUUID(string(want)) {
			c.report("options", fmt.Sprintf("the library generates %s with these options, the tool: %s", clip(string(want), 300), got), r.replay(schema))
			return false
		}
		return true
	})
	c.addSearch(st, len(seen))
	if len(c.St.Samples) == 0 {
		c.St.Samples = append(c.St.Samples, fmt.Sprintf("%s %v: %d outputs are those of the library", schema, args, len(seen)))
	}
}

// ---- flags for references to other documents

// hasSecret tells which marked document is in the output.
func runCliFiles(c *jctx, where string) {
	d := tmpDir()
	defer os.RemoveAll(d)
	for _, f := range []string{"work/in.json", "work/sub/in.json", "work/sub/other.json", "out/x.json", "out2/x.json", "workshop/x.json", "out 2/x.json", "a;b=c#d%41+e/x.json", " out/x.json"} {
		p := filepath.Join(d, f)
		mustNil(os.MkdirAll(filepath.Dir(p), 0o700))
		mustNil(os.WriteFile(p, []byte(`{"const":"SECRET `+f+`"}`), 0o600))
	}
	work := filepath.Join(d, "work")
	under := func(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }
	targets := []string{"work/in.json", "work/sub/in.json", "out/x.json", "out2/x.json", "workshop/x.json", "out 2/x.json", "a;b=c#d%41+e/x.json", " out/x.json"}
	pathLists := [][]string{nil, {"work"}, {"out"}, {"work/sub"}, {"out", "out2"}, {"work", "out2"}, {"none"}, {"out/x.json"}, {"out 2"}, {"work", "out 2"}, {"a;b=c#d%41+e"}, {" out"}}
	{
		for _, target := range targets {
			for _, absolute := range []bool{true, false} {
				for _, outside := range []bool{false, true} {
					for _, paths := range pathLists {
						for _, relPaths := range []bool{false, true} {
							if relPaths && len(paths) == 0 {
								continue
							}
							full := filepath.Join(d, target)
							base := work
							if where != "stdin" {
								base = filepath.Dir(filepath.Join(d, where))
							}
							ref := "file://" + (&url.URL{Path: full}).EscapedPath()
							if !absolute {
								rel, _ := filepath.Rel(base, full)
								ref = (&url.URL{Path: rel}).EscapedPath()
							}
							schema := `{"type":"object","properties":{"r":{"$ref":` + js(ref) + `}},"required":["r"],"additionalProperties":false}`
							var args []string
							if outside {
								args = append(args, "-allow-outside-cwd")
							}
							if len(paths) > 0 {
								var l []string
								for _, p := range paths {
									x := filepath.Join(d, p)
									if relPaths {
										x, _ = filepath.Rel(work, x)
									}
									l = append(l, x)
								}
								args = append(args, "-allowed-paths", strings.Join(l, ","))
							}
							r := cliRun{dir: work}
							if where == "stdin" {
								r.stdin, r.data = "pipe", schema
							} else {
								file := filepath.Join(d, where)
								mustNil(os.WriteFile(file, []byte(schema), 0o600))
								args = append(args, "-file", file)
							}
							r.args = args
							c.key = "cli files " + strings.ReplaceAll(strings.Join(args, " "), d, "D") + " in " + where + " to " + strings.ReplaceAll(ref, d, "D")
							o := r.run(c)
							c.St.Cases++
							c.St.Complete++
							c.St.Outcomes++
							got := strings.Contains(o.out+o.err, "SECRET")
							allowed, unclear := false, false
							switch {
							case len(paths) > 0:
								for _, p := range paths {
									allowed = allowed || under(full, filepath.Join(d, p))
								}
							case outside:
								allowed = true
							default:
								// without any flag nothing outside of the working directory is allowed
								allowed, unclear = under(full, work), true
							}
							if got && !allowed {
								c.report("not-allowed", "a document that is not allowed is read: "+o.String(), r.replay(schema))
							}
							if allowed && !unclear && (o.code != 0 || !strings.Contains(o.out, `{"r":"SECRET `+target+`"}`)) {
								c.report("allowed", "a document that is allowed is not used: "+o.String(), r.replay(schema))
							}
							if strings.Contains(o.err, "goroutine ") {
								c.report("crash", o.String(), r.replay(schema))
							}
							if where != "stdin" {
								os.Remove(filepath.Join(d, where))
							}
						}
					}
				}
			}
		}
	}
	c.St.Samples = append(c.St.Samples, "references to files: where the schema and the file are, by how it is named, by flags")
}

func runCliHosts(c *jctx) {
	n := getNet()
	n.pages["/cli.json"] = func(w http.ResponseWriter, self *netServer) {
		io.WriteString(w, `{"const":"PAGE `+self.name+`"}`)
	}
	d := tmpDir()
	defer os.RemoveAll(d)
	hostLists := [][]string{nil, {"$G"}, {"$g"}, {"$E"}, {"$G", "$g"}, {"$e", "$E", "$G"}, {"$g", "$e"}, {"none.example"}, {"none.example", "$G", "$g"}}
	for _, server := range []string{"$G", "$g", "$E", "$e", "$U"} {
		for _, hosts := range hostLists {
			for _, insecure := range []string{"", "-allow-insecure", "-allow-insecure=false"} {
				for _, where := range []string{"file", "stdin"} {
					for _, others := range []bool{false, true} {
						s := n.servers[server]
						schema := `{"type":"object","properties":{"r":{"$ref":"` + s.origin + `/cli.json"}},"required":["r"],"additionalProperties":false}`
						var args []string
						if len(hosts) > 0 {
							args = append(args, "-allowed-hosts", n.x(strings.Join(hosts, ",")))
						}
						if insecure != "" {
							args = append(args, insecure)
						}
						if others {
							args = append(args, "-allow-outside-cwd", "-allowed-paths", d)
						}
						r := cliRun{dir: d, args: args}
						if where == "file" {
							mustNil(os.WriteFile(filepath.Join(d, "s.json"), []byte(schema), 0o600))
							r.args = append(append([]string{}, args...), "-file", "s.json")
						} else {
							r.stdin, r.data = "pipe", schema
						}
						c.key = fmt.Sprintf("cli hosts %s allowed %v %s %s %v", server, hosts, insecure, where, others)
						n.mu.Lock()
						n.hits = nil
						n.mu.Unlock()
						o := r.run(c)
						n.mu.Lock()
						hits := strings.Join(n.hits, ", ")
						n.mu.Unlock()
						c.St.Cases++
						c.St.Complete++
						c.St.Outcomes++
						listed := false
						for _, h := range hosts {
							listed = listed || n.x(h) == s.addr
						}
						allowed := listed && (s.tls || insecure == "-allow-insecure")
						if !allowed && (hits != "" || strings.Contains(o.out, "PAGE")) {
							c.report("not-allowed", "a host that is not allowed is contacted ("+hits+"): "+n.unx(o.String()), r.replay(n.unx(schema)))
						}
						if allowed && server != "$U" && (o.code != 0 || !strings.Contains(o.out, `{"r":"PAGE `+server+`"}`)) {
							c.report("allowed", "a page of an allowed host is not used: "+n.unx(o.String()), r.replay(n.unx(schema)))
						}
						if server == "$U" && strings.Contains(o.out, "PAGE") {
							c.report("untrusted", "a page of a host with an untrusted certificate is used: "+n.unx(o.String()), r.replay(n.unx(schema)))
						}
					}
				}
			}
		}
	}
	c.St.Samples = append(c.St.Samples, "pages of five servers by allowed hosts and insecure connections")
}

func cliJobs(tier string) []job {
	th := tier == "thorough"
	out := []job{{key: "cli meta", run: runMeta}, {key: "cli sizes", run: runSizes}, {key: "cli hosts", run: runCliHosts}}
	for _, where := range []string{"work/s.json", "out/s.json", "stdin"} {
		out = append(out, job{key: "cli files in " + where, run: func(c *jctx) { runCliFiles(c, where) }})
	}
	for _, text := range cliInputs {
		out = append(out, job{key: "cli " + text, run: func(c *jctx) { runGrid(c, text) }})
	}
	for _, s := range cliOptionSchemas {
		var combos [][]int
		var values [][]string
		combos, values = append(combos, nil), append(values, nil)
		for i, f := range cliFlags {
			for _, v := range f.values {
				combos, values = append(combos, []int{i}), append(values, []string{v})
				for j := i + 1; j < len(cliFlags); j++ {
					if !th && !strings.Contains(s.flags, f.name) && !strings.Contains(s.flags, cliFlags[j].name) {
						continue
					}
					for _, w := range cliFlags[j].values {
						if th || w == cliFlags[j].values[0] || v == f.values[0] && strings.Contains(s.flags, cliFlags[j].name) {
							combos, values = append(combos, []int{i, j}), append(values, []string{v, w})
						}
					}
				}
			}
		}
		for k := range combos {
			out = append(out, job{key: fmt.Sprint("cli options ", s.schema, combos[k], values[k]), run: func(c *jctx) { runCliOptions(c, s.schema, s.flags, combos[k], values[k]) }})
		}
	}
	return out
}

func init() {
	register(&property{
		id: "C24", level: "model_checking", cli: true,
		rule:  "The tool is built from the working tree and run with every combination of input, output, format, verbosity and schema outcome, with help, version, unknown flags, references to files and hosts under every combination of the fetch flags; the choice trees of small schemas are explored in the library and every path is replayed in the tool, alone and with each pair of generator flags, expecting the same document.",
		jobs:  cliJobs,
		notes: []string{"References to files below the working directory without any flag may or may not be followed; they are not judged.", "The messages themselves are not judged, only that there are some."},
	})
}
