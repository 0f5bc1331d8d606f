package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// rerun runs the job a violation was found in once more.
func rerun(prop, key, kind string) int {
	p := registry[prop]
	if p == nil || p.jobs == nil {
		return 1
	}
	installHooks()
	for _, tier := range []string{"quick", "thorough"} {
		for _, j := range p.jobs(tier) {
			if j.key != key && !strings.HasPrefix(key, j.key+" | ") {
				continue
			}
			c := &jctx{prop: prop, tier: tier, key: j.key}
			j.run(c)
			for _, v := range c.Viols {
				if v.Key == key && v.Kind == kind {
					fmt.Printf("--- reproduced by running the job again\n%s\n", v.Detail)
					return 1
				}
			}
			fmt.Println("--- the job does not report it any more")
			return 0
		}
	}
	fmt.Println("--- no such job")
	return 1
}

// replayMain reproduces a reported violation without the explorer.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var f struct {
		Property, Key, Kind, Detail string
		Replay                      json.RawMessage
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("property %s\ncase %s\nkind %s\n%s\n", f.Property, f.Key, f.Kind, f.Detail)
	var r scReplay
	if json.Unmarshal(f.Replay, &r) != nil || r.Schema == "" {
		fmt.Println("replay data:", string(f.Replay))
		return rerun(f.Property, f.Key, f.Kind)
	}
	installHooks()
	p := parseQuiet(r.Env, r.Schema, (&scase{maxParse: r.Parse}).parserOptions())
	fmt.Printf("--- replay\nparse errors: %q panic: %q\n", p.errs, p.panicV)
	if p.panicV != "" {
		return 1
	}
	o := runCtl(r.Env, execCfg{openQuiet: r.Open}, r.Choices, polLow, func() interface{} { return p.gen.Generate(r.Opts.options()) })
	out, err := json.Marshal(o.val)
	fmt.Printf("output: %s (marshal error %v) panic: %q horizon: %v\n", out, err, o.panicV, o.horizon)
	j := r.Judge
	if j == "" {
		j = r.Schema
	}
	if v, err := decodeJSON(out); err == nil {
		fmt.Printf("reference: %q; third-party validator: %d\n", newValidator(mustDecode(j)).check(v), santhosh(j, string(out)))
	}
	return 1
}
