package main

// Schema cases: one schema + options, explored over its whole choice tree (or to
// the deviation bound), every outcome judged by the reference semantics.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	chaff "github.com/ryanolee/go-chaff"
	"github.com/ryanolee/go-chaff/rand"
	sj "github.com/santhosh-tekuri/jsonschema/v6"
)

type genOpts struct {
	IfAttempts, OneOfAttempts, UniqueAttempts int
	MaxSteps, Cutoff, RefDepth                int
	ArrMin, ArrMax, ObjMin, ObjMax            int
	NumMin, NumMax, StrMin, StrMax            int
	Bypass                                    bool
}

func (g genOpts) options() *chaff.GeneratorOptions {
	return &chaff.GeneratorOptions{
		Rand:                           rand.NewRandUtil(1),
		MaximumIfAttempts:              g.IfAttempts,
		MaximumOneOfAttempts:           g.OneOfAttempts,
		MaximumUniqueGeneratorAttempts: g.UniqueAttempts,
		MaximumGenerationSteps:         g.MaxSteps,
		CutoffGenerationSteps:          g.Cutoff,
		MaximumReferenceDepth:          g.RefDepth,
		DefaultArrayMinItems:           g.ArrMin,
		DefaultArrayMaxItems:           g.ArrMax,
		DefaultObjectMinProperties:     g.ObjMin,
		DefaultObjectMaxProperties:     g.ObjMax,
		BypassCyclicReferenceCheck:     g.Bypass,
		DefaultNumberMinimum:           g.NumMin,
		DefaultNumberMaximum:           g.NumMax,
		DefaultStringMinLength:         g.StrMin,
		DefaultStringMaxLength:         g.StrMax,
	}
}

func (g genOpts) label() string {
	if g == (genOpts{}) {
		return ""
	}
	s := fmt.Sprintf("%+v", g)
	s = regexp.MustCompile(`\w+:(0|false)\b ?`).ReplaceAllString(s, "")
	return " opts=" + strings.ReplaceAll(s, " }", "}")
}

const (
	expAny = iota
	expParse
	expReject
)

type reach struct {
	name string
	pred func(v interface{}, raw string) bool
}

type scase struct {
	family string
	schema string
	judge  string // schema used by the reference semantics ("" = schema)
	opts   genOpts
	envs   []env
	search searchCfg
	expect int
	fair   bool // some fair base schedule must end in a valid, non-give-up value
	reach  []reach
	extra  func(v interface{}, raw string) string // additional oracle; "" = fine
	noVal  bool                                   // skip the schema validity oracle
	strict bool                                   // a give-up marker is a violation on every execution
	always func(v interface{}, raw string) string // additional oracle, applied to outputs with give-up markers, too

	// onOutcome judges every execution (not only distinct outputs), with its draws
	onOutcome func(o *outcome, v interface{}, raw, marker string) string
	atEnd     func() string // judged after the exploration; "" = fine

	truncOK  bool                 // executions that exceed the horizon are given up, no violation
	maxParse int                  // ParserOptions.MaxParseDepth
	popts    *chaff.ParserOptions // further parser options
}

func (s *scase) parserOptions() *chaff.ParserOptions {
	o := chaff.ParserOptions{}
	if s.popts != nil {
		o = *s.popts
	}
	if s.maxParse != 0 {
		o.MaxParseDepth = s.maxParse
	}
	return &o
}

func (s *scase) key() string {
	k := s.family + " " + s.schema + s.opts.label()
	if s.maxParse != 0 {
		k += fmt.Sprintf(" maxParseDepth=%d", s.maxParse)
	}
	return k
}

type parsed struct {
	gen    chaff.RootGenerator
	errs   string // "" when accepted
	panicV string
}

func parseErrs(g chaff.RootGenerator, err error) string {
	if err != nil {
		return err.Error()
	}
	if g.Metadata != nil && g.Metadata.Errors != nil && g.Metadata.Errors.HasErrors() {
		var l []string
		for k, e := range g.Metadata.Errors.CollectErrors() {
			l = append(l, fmt.Sprintf("%v: %v", k, e))
		}
		return strings.Join(l, "; ")
	}
	return ""
}

func parseQuiet(e env, schema string, po *chaff.ParserOptions) (p parsed) {
	if po == nil {
		po = &chaff.ParserOptions{}
	}
	p.panicV = runQuiet(e, func() {
		g, err := chaff.ParseSchemaString(schema, po)
		p.gen = g
		p.errs = parseErrs(g, err)
	})
	return
}

var markerPrefixes = []string{
	"Failed to generate a valid value",
	"Warning: Unable to generate unique item",
	"Maximum reference resolution depth",
	"Cyclic reference found",
	"Unresolvable reference",
	"Unsupported Format",
	"Known but unsupported format",
}

func hasMarker(v interface{}) string {
	switch x := v.(type) {
	case string:
		for _, m := range markerPrefixes {
			if strings.HasPrefix(x, m) {
				return m
			}
		}
	case []interface{}:
		for _, y := range x {
			if m := hasMarker(y); m != "" {
				return m
			}
		}
	case map[string]interface{}:
		for _, y := range x {
			if m := hasMarker(y); m != "" {
				return m
			}
		}
	}
	return ""
}

var digits = regexp.MustCompile(`\d+`)

func normKind(s string) string {
	s = digits.ReplaceAllString(s, "#")
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// santhosh validates raw against schema with the third-party validator: 1 valid, 0 invalid, -1 no answer.
func santhosh(schema string, raw string) int {
	s, err := sj.UnmarshalJSON(strings.NewReader(schema))
	if err != nil {
		return -1
	}
	c := sj.NewCompiler()
	c.AssertFormat()
	if legacyArray(s) {
		c.DefaultDraft(sj.Draft2019)
	}
	if c.AddResource("http://verif.invalid/s.json", s) != nil {
		return -1
	}
	sch, err := c.Compile("http://verif.invalid/s.json")
	if err != nil {
		return -1
	}
	v, err := sj.UnmarshalJSON(strings.NewReader(raw))
	if err != nil {
		return -1
	}
	if sch.Validate(v) == nil {
		return 1
	}
	return 0
}

func legacyArray(s interface{}) bool {
	switch x := s.(type) {
	case map[string]interface{}:
		if _, ok := x["items"].([]interface{}); ok {
			return true
		}
		if _, ok := x["additionalItems"]; ok {
			return true
		}
		for _, y := range x {
			if legacyArray(y) {
				return true
			}
		}
	case []interface{}:
		for _, y := range x {
			if legacyArray(y) {
				return true
			}
		}
	}
	return false
}

type scReplay struct {
	Schema  string   `json:"schema"`
	Judge   string   `json:"judge,omitempty"`
	Opts    genOpts  `json:"opts"`
	Env     env      `json:"env"`
	Choices []uint64 `json:"choices"`
	Output  string   `json:"output"`
	Why     string   `json:"why"`
	Open    bool     `json:"open_quiet,omitempty"`
	Parse   int      `json:"max_parse_depth,omitempty"`
}

var defaultPolicies = []policy{polRR1, polLow, polHigh, polRR2, polMix, polMid, polRR3}

// fairPolicies do not resonate with loops that draw a fixed number of times.
var fairPolicies = []policy{polMix, polMix2, polMix3}

func isFair(p policy) bool { return p != polLow && p != polHigh && p != polMid }

// judgeOutcome classifies one outcome: kind "" = fine.
func (s *scase) judgeOutcome(va *validator, o *outcome) (kind, why, raw, marker string) {
	if o.horizon {
		return "no-termination", "draw horizon exceeded", "", ""
	}
	if o.panicV != "" {
		return "panic:" + normKind(o.panicV), o.panicV, "", ""
	}
	b, err := json.Marshal(o.val)
	if err != nil {
		return "unserialisable", err.Error(), fmt.Sprintf("%v", o.val), ""
	}
	raw = string(b)
	v, err := decodeJSON(b)
	if err != nil {
		return "unserialisable", err.Error(), raw, ""
	}
	if s.always != nil {
		if w := s.always(v, raw); w != "" {
			return "extra:" + normKind(w), w, raw, ""
		}
	}
	marker = hasMarker(v)
	if marker != "" {
		if s.strict {
			return "gave-up:" + marker, "gave up: " + marker, raw, marker
		}
		return "", "", raw, marker
	}
	if !s.noVal {
		if w := va.check(v); w != "" {
			return "invalid:" + normKind(w), w, raw, ""
		}
	}
	if s.extra != nil {
		if w := s.extra(v, raw); w != "" {
			return "extra:" + normKind(w), w, raw, ""
		}
	}
	return "", "", raw, ""
}

func (s *scase) outcomeOracle(o *outcome, raw, marker string) string {
	v, err := decodeJSON([]byte(raw))
	if err != nil {
		return err.Error()
	}
	return s.onOutcome(o, v, raw, marker)
}

func (s *scase) judgeText() string {
	if s.judge != "" {
		return s.judge
	}
	return s.schema
}

func (s *scase) run(c *jctx) {
	c.key = s.key()
	envs := s.envs
	if len(envs) == 0 {
		envs = []env{{0, 0}}
	}
	cfg := s.search
	if cfg.smallN == 0 {
		cfg.smallN = 8
	}
	if cfg.policies == nil {
		cfg.policies = defaultPolicies
	}
	if cfg.fullCap == 0 {
		cfg.fullCap = 3000
		if c.thorough() {
			cfg.fullCap = 60000
		}
	}
	if cfg.devBound == 0 {
		cfg.devBound = 2
	}
	if cfg.devCap == 0 {
		cfg.devCap = 600
		if c.thorough() {
			cfg.devCap = 12000
		}
	}
	judge := newValidator(mustDecode(s.judgeText()))
	reached := make([]bool, len(s.reach))
	fairOK := false
	tried := false
	for _, e := range envs {
		p := parseQuiet(e, s.schema, s.parserOptions())
		rep := scReplay{Schema: s.schema, Judge: s.judge, Opts: s.opts, Env: e, Open: cfg.exec.openQuiet, Parse: s.maxParse}
		if p.panicV != "" {
			c.report("parse-panic:"+normKind(p.panicV), "ParseSchema panicked: "+p.panicV, rep)
			return
		}
		switch {
		case p.errs != "" && s.expect == expParse:
			rep.Why = p.errs
			c.report("parse-error", "schema is satisfiable and supported but was rejected: "+p.errs, rep)
			c.St.Cases++
			return
		case p.errs == "" && s.expect == expReject:
			o := runCtl(e, cfg.exec, nil, polLow, func() interface{} { return p.gen.Generate(s.opts.options()) })
			b, _ := json.Marshal(o.val)
			rep.Output = string(b)
			c.report("not-rejected", "contradictory schema was accepted without any recorded error; it generates "+string(b), rep)
			c.St.Cases++
			return
		case p.errs != "":
			c.St.Rejected++
			c.St.Cases++
			return
		}
		tried = true
		type verdict struct{ kind, why string }
		memo := map[string]verdict{}
		outcomes := map[string]bool{}
		st := search(e, cfg, func() interface{} { return p.gen.Generate(s.opts.options()) }, func(o *outcome, pol policy, devs int) bool {
			kind, why, raw, marker := "", "", "", ""
			if o.horizon && s.truncOK {
				c.extra("executions_cut_at_horizon", 1)
				return true
			}
			if o.horizon && cfg.exec.openQuiet && !isFair(pol) {
				c.extra("unfair_faker_loops", 1) // rejection loop of a third-party generator under a constant answer
				return true
			}
			if o.panicV == "" && !o.horizon {
				if b, err := json.Marshal(o.val); err == nil {
					if m, ok := memo[string(b)]; ok {
						kind, why, raw = m.kind, m.why, string(b)
						if kind == "marker" {
							kind, marker = "", why
						}
						goto have
					}
				}
			}
			kind, why, raw, marker = s.judgeOutcome(judge, o)
			if raw != "" && kind != "unserialisable" {
				k, w := kind, why
				if marker != "" && kind == "" {
					k, w = "marker", marker
				}
				memo[raw] = verdict{k, w}
				if v, err := decodeJSON([]byte(raw)); err == nil && kind == "" && marker == "" {
					for i, r := range s.reach {
						if !reached[i] && r.pred(v, raw) {
							reached[i] = true
						}
					}
				}
			}
		have:
			outcomes[raw] = true
			if kind == "" && s.onOutcome != nil {
				if w := s.outcomeOracle(o, raw, marker); w != "" {
					kind, why = "outcome:"+normKind(w), w
				}
			}
			if marker != "" {
				c.St.Markers++
			} else if kind == "" && devs == 0 && isFair(pol) {
				fairOK = true
			}
			if kind == "" || c.reported(kind) {
				return true
			}
			if strings.HasPrefix(kind, "invalid:") && santhosh(s.judgeText(), raw) == 1 {
				c.St.Disagree++
				c.extra("disagree:"+kind, 1)
				return true
			}
			// Confirm on freshly parsed generators before believing it.
			ch := o.choices()
			for k := 0; k < 3; k++ {
				p2 := parseQuiet(e, s.schema, s.parserOptions())
				o2 := runCtl(e, cfg.exec, ch, polLow, func() interface{} { return p2.gen.Generate(s.opts.options()) })
				k2, _, raw2, m2 := s.judgeOutcome(judge, &o2)
				if k2 == "" && s.onOutcome != nil {
					if w := s.outcomeOracle(&o2, raw2, m2); w != "" {
						k2 = "outcome:" + normKind(w)
					}
				}
				if k2 != kind { // the value may differ: the order of maps of more than eight members is not owned
					c.extra("unconfirmed", 1)
					return true
				}
			}
			rep.Choices, rep.Output, rep.Why = ch, raw, why
			c.report(kind, fmt.Sprintf("output %s\nwhy: %s\nchoices %v (base schedule %d, %d deviations), map order %+v", clip(raw, 300), why, clipChoices(ch), pol, devs, e), rep)
			return true
		})
		c.addSearch(st, len(outcomes))
		if len(c.St.Samples) == 0 {
			for raw := range outcomes {
				c.St.Samples = append(c.St.Samples, clip(s.key(), 200)+" => "+clip(raw, 150))
				break
			}
		}
	}
	if !tried {
		return
	}
	rep := scReplay{Schema: s.schema, Judge: s.judge, Opts: s.opts, Env: envs[0]}
	if s.fair && !fairOK {
		c.report("always-gives-up", "no fair schedule produced a valid value although one exists", rep)
	}
	if s.atEnd != nil {
		if w := s.atEnd(); w != "" {
			c.report("end:"+normKind(w), w, rep)
		}
	}
	for i, r := range s.reach {
		if !reached[i] {
			rep.Why = r.name
			c.report("unreachable:"+r.name, "no explored execution produces: "+r.name, rep)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func clipChoices(c []uint64) []uint64 {
	if len(c) > 40 {
		return c[:40]
	}
	return c
}

func caseJobs(cases []scase, per int) []job {
	var out []job
	for i := 0; i < len(cases); i += per {
		j := i + per
		if j > len(cases) {
			j = len(cases)
		}
		chunk := cases[i:j]
		out = append(out, job{key: chunk[0].key(), run: func(c *jctx) {
			for k := range chunk {
				chunk[k].run(c)
			}
		}})
	}
	return out
}

func js(v interface{}) string { return encodeJSON(v) }
