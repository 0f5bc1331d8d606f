package main

// C18: one generator used from several goroutines.
//
// Two explorations. (1) In the ordinary build a cooperative scheduler owns every switch between the goroutines: all schedules up
// to a preemption bound are run, with a scheduling point at every draw; each call must give what it gives alone with the same
// draws. (2) In a build with the race detector every explored execution runs next to itself and next to the first one, with
// nothing that orders the two: an execution that writes shared data at all races with itself. Without such races an interleaving
// can only differ from those of (1) in ways no goroutine can observe.

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
)

// ---- cooperative scheduler

type coop struct {
	plan    map[int]int // step -> goroutine that runs from there on
	step    int
	cur     int
	done    []bool
	wake    []chan struct{}
	end     chan struct{}
	steps   []int // for each step, the goroutine that made it
	horizon int
}

func (s *coop) switchTo(t int) {
	me := s.cur
	saved := ctl
	s.cur = t
	s.wake[t] <- struct{}{}
	<-s.wake[me]
	ctl = saved
}

// point is called by the running goroutine at each of its draws.
func (s *coop) point() {
	s.step++
	s.steps = append(s.steps, s.cur)
	if t, ok := s.plan[s.step]; ok && t != s.cur && !s.done[t] {
		s.switchTo(t)
	}
}

type callResult struct {
	out   string
	draws int
}

// call is one concurrent operation, with its own draws.
type call struct {
	quiet bool // a parse: its draws take the fixed stream
	pol   policy
	pre   []uint64
	run   func() interface{}
}

func (c call) exec(onDraw func(), horizon int) (r callResult) {
	ctl = controller{on: true, prefix: c.pre, pol: c.pol, horizon: horizon, onDraw: onDraw, quietAll: c.quiet}
	defer func() {
		r.draws = ctl.draws
		if x := recover(); x != nil {
			if _, ok := x.(horizonPanic); ok {
				r.out = "<cut off>"
			} else {
				r.out = fmt.Sprintf("<panic: %v at %s>", x, panicSite())
			}
		}
	}()
	v := c.run()
	b, err := json.Marshal(v)
	r.out = string(b)
	if err != nil {
		r.out = "<unserialisable>"
	}
	return
}

// runCoop runs the calls under one schedule.
func runCoop(calls []call, plan map[int]int, first int, horizon int) ([]callResult, *coop) {
	s := &coop{plan: plan, cur: first, done: make([]bool, len(calls)), wake: make([]chan struct{}, len(calls)), end: make(chan struct{})}
	res := make([]callResult, len(calls))
	verifMapRot, verifMapStep, verifMapCount, verifMapMode = 0, 0, 0, 1
	for i := range calls {
		s.wake[i] = make(chan struct{})
		go func(i int) {
			<-s.wake[i]
			res[i] = calls[i].exec(s.point, horizon)
			s.done[i] = true
			for t := range calls {
				if !s.done[t] {
					s.cur = t
					s.wake[t] <- struct{}{}
					return
				}
			}
			s.end <- struct{}{}
		}(i)
	}
	s.wake[first] <- struct{}{}
	<-s.end
	verifMapMode = 0
	ctl.on = false
	return res, s
}

// ---- what runs concurrently

var concurrentSchemas = append(append([]string{}, historySchemas...),
	`{"type":"string","pattern":"^([a-c]|x{2,3})[0-9]+$"}`, `{"type":"string","pattern":"^.{3}$"}`,
	`{"type":"object","patternProperties":{"^k[0-9]{2}$":{"type":"integer","minimum":0,"maximum":5}},"minProperties":2,"additionalProperties":false}`,
	`{"type":"array","items":{"type":"string","pattern":"^[a-z]{1,2}$"},"uniqueItems":true,"minItems":2,"maxItems":3}`,
	`{"type":"array","contains":{"type":"integer","minimum":5,"maximum":6},"items":{"type":"integer","minimum":0,"maximum":9},"minContains":2,"maxItems":4}`,
	`{"type":"object","properties":{"p":{"$ref":"#/$defs/x"},"q":{"$ref":"#/$defs/x"}},"required":["p","q"],"$defs":{"x":{"oneOf":[{"type":"integer","minimum":0,"maximum":2},{"enum":["s",1]}]}}}`,
	`{"type":"integer","minimum":0,"maximum":9,"allOf":[{"if":{"minimum":5},"then":{"multipleOf":2}},{"not":{"const":3}}]}`,
	`{"type":["object","array","string","integer","null"],"minLength":1,"maxLength":2,"minItems":1,"maxItems":2}`,
	`{"type":"string","format":"uuid"}`, `{"type":"string","format":"email"}`, `{"type":"string","format":"uri"}`, `{"type":"string","format":"date-time"}`, `{"type":"string","format":"regex"}`, `{"type":"string","format":"json-pointer"}`,
	`{"type":"object","required":["zz","yy"],"minProperties":3}`,
	`{"type":"array","prefixItems":[{"type":"boolean"},{"type":"boolean"}],"unevaluatedItems":{"type":"null"},"minItems":3,"maxItems":4}`,
	`{"anyOf":[{"type":"object","properties":{"n":{"$ref":"#"}},"required":["n"]},{"type":"integer","minimum":0,"maximum":3}]}`,
	`{"not":{"type":"string"}}`, `{"type":"object","properties":{"a":{"type":"boolean"}},"not":{"required":["a"]}}`,
	`{"oneOf":[{"enum":["a","b","c"]},{"enum":["c","d"]}]}`, `{"oneOf":[{"type":"string","maxLength":2},{"type":["string","null"],"minLength":1,"maxLength":3}]}`, `{"oneOf":[{"enum":[[1],{"a":1},true,"x",0.5]},{"enum":[{"a":1},null,"y"]}]}`,
	`{"anyOf":[{"enum":["a","b"]},{"enum":["b",true]}],"enum":["a","b",true,"c"]}`, `{"type":["string","integer"],"minLength":1,"maxLength":1,"minimum":0,"maximum":2,"not":{"enum":["a",1]}}`,
	`{"enum":["a","b","c","d"],"if":{"enum":["a","b"]},"then":{"const":"a"},"else":{"const":"d"}}`, `{"enum":["a","b","c"],"allOf":[{"not":{"const":"b"}},{"if":{"const":"a"},"then":{"maxLength":1},"else":{"not":{"const":"q"}}}]}`,
	`{"type":"object","properties":{"a":{"type":"boolean"},"b":{"enum":["x","y"]}},"additionalProperties":{"type":"null"},"minProperties":1,"maxProperties":4}`, `{"type":"array","items":{"oneOf":[{"enum":["a","b"]},{"enum":["b","c"]}]},"uniqueItems":true,"minItems":1,"maxItems":2}`,
	`{"type":"string","format":"time"}`, `{"type":"string","format":"duration"}`, `{"type":"string","format":"ipv6"}`, `{"type":"string","format":"idn-email"}`, `{"type":"string","format":"iri"}`,
	`{"type":"number"}`, `{"type":"string"}`, `{"type":"array"}`, `{"type":"object"}`, `{"type":"boolean"}`,
)

func concurrentOpts(i int) *chaff.GeneratorOptions {
	o := historyOpts()[[]int{0, 2, 0}[i%3]]
	o.Rand = rand.NewRandUtil(int64(i + 1))
	return o
}

type callSet struct {
	name  string
	make  func(schema string) []func(i int) interface{} // fresh closures, one per goroutine
	parse bool
}

func parseAndGenerate(schema string, po *chaff.ParserOptions, o *chaff.GeneratorOptions) interface{} {
	g, err := chaff.ParseSchemaString(schema, po)
	errs := parseErrs(g, err)
	if err != nil {
		return errs
	}
	return []interface{}{errs, g.Generate(o)}
}

var callSets = []callSet{
	{"two calls of one generator", func(schema string) []func(int) interface{} {
		g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
		if err != nil {
			return nil
		}
		f := func(i int) interface{} { return g.Generate(concurrentOpts(i)) }
		return []func(int) interface{}{f, f}
	}, false},
	{"three calls of one generator", func(schema string) []func(int) interface{} {
		g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
		if err != nil {
			return nil
		}
		f := func(i int) interface{} { return g.Generate(concurrentOpts(i)) }
		return []func(int) interface{}{f, f, f}
	}, false},
	{"one options value", func(schema string) []func(int) interface{} {
		g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
		if err != nil {
			return nil
		}
		o := &chaff.GeneratorOptions{DefaultArrayMaxItems: 3, DefaultObjectMaxProperties: 3, MaximumReferenceDepth: 3, CutoffGenerationSteps: 300}
		f := func(int) interface{} { return g.Generate(o) }
		return []func(int) interface{}{f, f}
	}, false},
	{"two parsers", func(schema string) []func(int) interface{} {
		po := &chaff.ParserOptions{}
		f := func(i int) interface{} { return parseAndGenerate(schema, po, concurrentOpts(i)) }
		return []func(int) interface{}{f, f}
	}, true},
	{"a parser next to a generator", func(schema string) []func(int) interface{} {
		po := &chaff.ParserOptions{}
		g, err := chaff.ParseSchemaString(schema, po)
		if err != nil {
			return nil
		}
		return []func(int) interface{}{
			func(i int) interface{} { return g.Generate(concurrentOpts(i)) },
			func(i int) interface{} { return parseAndGenerate(schema, po, concurrentOpts(i)) },
		}
	}, true},
	{"reading what the generator reports", func(schema string) []func(int) interface{} {
		g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
		if err != nil {
			return nil
		}
		return []func(int) interface{}{
			func(i int) interface{} { return g.Generate(concurrentOpts(i)) },
			func(i int) interface{} { return []interface{}{g.String(), parseErrs(g, nil)} },
		}
	}, false},
}

const coopHorizon = 3000

// exploreSchedules runs every schedule of the calls with at most bound preemptions.
func exploreSchedules(c *jctx, calls []call, bound, limit int, label string) {
	want := make([]callResult, len(calls))
	for i := range calls {
		r, _ := runCoop(calls[i:i+1], nil, 0, coopHorizon)
		again, _ := runCoop(calls[i:i+1], nil, 0, coopHorizon)
		want[i] = r[0]
		if r[0].out != again[0].out {
			c.extra("calls_not_repeatable_alone", 1)
			return
		}
		if r[0].out == "<cut off>" {
			c.extra("calls_cut_off", 1)
			return
		}
	}
	runs, capped := 0, false
	outs := map[string]bool{}
	var visit func(plan map[int]int, first, last, left int)
	visit = func(plan map[int]int, first, last, left int) {
		if capped || c.reported("differs") {
			return
		}
		if runs++; runs > limit {
			capped = true
			return
		}
		res, s := runCoop(calls, plan, first, coopHorizon)
		c.St.Executions++
		c.St.Transitions += s.step
		c.St.States += s.step - last + 1
		if heartbeat != nil {
			heartbeat()
		}
		for i, r := range res {
			outs[fmt.Sprint(i, r.out)] = true
			if r.out != want[i].out {
				kind := "differs"
				if strings.HasPrefix(r.out, "<panic") {
					kind = "panic"
				}
				c.report(kind, fmt.Sprintf("call %d gives %s alone and %s in the schedule %v starting with call %d (%s)", i, clip(want[i].out, 200), clip(r.out, 200), plan, first, label), map[string]interface{}{"plan": plan, "first": first, "label": label})
				return
			}
		}
		if left == 0 {
			return
		}
		for p := last + 1; p <= s.step; p++ {
			for t := range calls {
				if t == s.steps[p-1] {
					continue
				}
				next := map[int]int{p: t}
				for k, v := range plan {
					next[k] = v
				}
				visit(next, first, p, left-1)
			}
		}
	}
	for first := range calls {
		visit(map[int]int{}, first, 0, bound)
	}
	c.St.Cases++
	c.St.Outcomes += len(outs)
	if capped {
		c.St.Capped++
	} else {
		c.St.Complete++
	}
	if len(c.St.Samples) == 0 {
		c.St.Samples = append(c.St.Samples, clip(c.key, 150)+" "+label+fmt.Sprintf(": %d schedules", runs))
	}
}

// ---- race pass

var raceFrame = regexp.MustCompile(`github\.com/ryanolee/go-chaff[^\s(]*(?:\([^\s)]*\))?[^\s(]*`)

func raceReport() string {
	m := regexp.MustCompile(`log_path=(\S+)`).FindStringSubmatch(os.Getenv("GORACE"))
	if m == nil {
		return ""
	}
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d", m[1], os.Getpid()))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return s
}

func raceSites(report string) string {
	var sites []string
	for _, part := range strings.Split(report, "\n\n") {
		for _, f := range raceFrame.FindAllString(part, -1) {
			if !strings.Contains(f, "zz_verif_harness") {
				sites = append(sites, f[strings.LastIndex(f, "/")+1:])
				break
			}
		}
		if len(sites) == 2 {
			break
		}
	}
	return strings.Join(sites, " / ")
}

var raceCtl map[mrand.Source]*raceStream

type raceStream struct {
	pre   []uint64
	pol   policy
	pos   int
	trace []point
}

// raceHook answers the draws of the options' own sources; everything else (faker, regular expressions, shuffles) runs as is.
func raceHook(src mrand.Source, kind int, n uint64) (uint64, bool) {
	if src == nil {
		return 0, false
	}
	s, ok := raceCtl[src]
	if !ok {
		return 0, false
	}
	i := s.pos
	if s.pos++; s.pos > 20000 {
		panic(horizonPanic{s.pos})
	}
	v := uint64(0)
	if i < len(s.pre) {
		v = min(s.pre[i], domMax(kind, n))
	} else {
		v = s.pol.pick(i, kind, n)
	}
	if i < 60 {
		s.trace = append(s.trace, point{kind, n, v})
	}
	return v, true
}

// raceCalls runs the operations at the same time, each with the given draws, and tells about races and panics.
func raceCalls(c *jctx, fs []func(*chaff.GeneratorOptions) interface{}, streams []raceStream, label string) []point {
	raceCtl = map[mrand.Source]*raceStream{}
	opts := make([]*chaff.GeneratorOptions, len(fs))
	for i := range fs {
		opts[i] = concurrentOpts(0)
		opts[i].Rand = rand.NewRandUtil(int64(i + 1))
		raceCtl[opts[i].Rand.Source] = &streams[i]
	}
	before := raceErrors()
	panics := make([]string, len(fs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(horizonPanic); !ok {
						panics[i] = fmt.Sprintf("%v at %s", r, panicSite())
					}
				}
			}()
			<-start
			fs[i](opts[i])
		}()
	}
	close(start)
	wg.Wait()
	c.St.Executions++
	for _, p := range panics {
		if p != "" && !strings.Contains(p, "verif-solo") {
			c.extra("panics_in_race_pass", 1)
		}
	}
	if raceErrors() > before {
		rep := raceReport()
		sites := raceSites(rep)
		c.report("data-race", fmt.Sprintf("data race between %s (%s)\n%s", sites, label, clip(rep, 1500)), map[string]interface{}{"label": label, "sites": sites})
	}
	return streams[0].trace
}

func racePass(c *jctx, schema string, limit int) {
	mrand.VerifHook = raceHook
	verifMapMode = 0
	g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{})
	po := &chaff.ParserOptions{}
	gen := func(o *chaff.GeneratorOptions) interface{} { return g.Generate(o) }
	prs := func(o *chaff.GeneratorOptions) interface{} { return parseAndGenerate(schema, po, o) }
	shared := &chaff.GeneratorOptions{DefaultArrayMaxItems: 3, DefaultObjectMaxProperties: 3, MaximumReferenceDepth: 3, CutoffGenerationSteps: 300}
	one := func(*chaff.GeneratorOptions) interface{} { return g.Generate(shared) }
	desc := func(*chaff.GeneratorOptions) interface{} { return g.String() + parseErrs(g, nil) }
	type F = []func(*chaff.GeneratorOptions) interface{}
	streams := func(n int, pol policy, pre []uint64) []raceStream {
		out := make([]raceStream, n)
		for i := range out {
			out[i] = raceStream{pre: pre, pol: pol}
		}
		return out
	}
	raceCalls(c, F{prs, prs}, streams(2, polRR1, nil), "two parsers")
	if err != nil {
		return
	}
	raceCalls(c, F{gen, prs}, streams(2, polRR1, nil), "a parser next to a generator")
	raceCalls(c, F{one, one}, streams(2, polRR1, nil), "one options value without Rand")
	raceCalls(c, F{gen, desc, gen}, streams(3, polRR2, nil), "reading what the generator reports")
	for _, pol := range defaultPolicies {
		raceCalls(c, F{gen, gen}, streams(2, pol, nil), "the same draws twice")
		two := streams(3, pol, nil)
		two[1].pol, two[2].pol = polLow, polMix
		raceCalls(c, F{gen, gen, gen}, two, "different draws")
	}
	// every choice sequence next to itself
	runs := 0
	var dfs func(pre []uint64)
	dfs = func(pre []uint64) {
		if runs++; runs > limit || len(c.Viols) > 3 {
			return
		}
		if heartbeat != nil {
			heartbeat()
		}
		tr := raceCalls(c, F{gen, gen}, streams(2, polLow, pre), fmt.Sprint("the same draws ", clipChoices(pre)))
		tr = append([]point(nil), tr...)
		ch := make([]uint64, len(tr))
		for i, p := range tr {
			ch[i] = p.val
		}
		for i := len(tr) - 1; i >= len(pre); i-- {
			for _, a := range domain(tr[i].kind, tr[i].n, 6) {
				if a != tr[i].val && runs <= limit {
					dfs(append(append(make([]uint64, 0, i+1), ch[:i]...), a))
				}
			}
		}
	}
	dfs(nil)
	c.extra("executions_run_next_to_themselves", min(runs, limit))
	if runs > limit {
		c.extra("race_searches_capped", 1)
	}
}

func concurrentJobs(tier string) []job {
	th := tier == "thorough"
	var out []job
	for si, schema := range concurrentSchemas {
		if raceBuild {
			out = append(out, job{key: "race " + schema, run: func(c *jctx) {
				limit := 500
				if th {
					limit = 1500
				}
				racePass(c, schema, limit)
				c.St.Cases++
			}})
			continue
		}
		for ki, set := range callSets {
			out = append(out, job{key: "schedules " + set.name + " " + schema, run: func(c *jctx) {
				pols := []policy{polRR1, polMix}
				bound, limit := 2, 2500
				if th {
					pols, bound, limit = defaultPolicies, 3, 6000
				}
				for _, pol := range pols {
					var fs []func(int) interface{}
					runQuiet(env{}, func() { fs = set.make(schema) })
					if fs == nil {
						return
					}
					calls := make([]call, len(fs))
					for i, f := range fs {
						calls[i] = call{quiet: set.parse || ki == 2, pol: []policy{pol, polLow, polRR2}[i], run: func() interface{} { return f(i) }}
						if i > 0 && pol == polMix {
							calls[i].pol = pol
						}
					}
					exploreSchedules(c, calls, bound, limit, fmt.Sprint(set.name, ", draws ", pol))
				}
			}})
		}
		_ = si
	}
	return out
}

func raceEnv() string {
	return "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path=" + filepath.Join(os.TempDir(), "race")
}

func init() {
	register(&property{
		id:    "C18",
		level: "model_checking",
		race:  true,
		rule:  "One case per schema, set of concurrent calls and draw policy: every schedule of the calls with at most two (thorough: three) preemptions, a scheduling point at every draw, under a cooperative scheduler; each call must return what it returns alone with the same draws. In a second build with the race detector every explored choice sequence runs unordered next to itself, next to others and next to parsers; any data race is a violation.",
		jobs:  concurrentJobs,
		notes: []string{
			"An execution that writes shared memory without synchronisation races with a copy of itself, so running each explored execution next to itself finds every such write on the explored paths.",
			"Every caller has its own source of randomness or none.",
		},
	})
}
