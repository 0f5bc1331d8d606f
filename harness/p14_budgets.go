package main

// C14: retry budgets are respected and giving up is visible in the output.

import (
	"fmt"
	"strconv"
	"strings"
)

// A budgetBase is a schema whose candidate values may violate a oneOf, if, not
// or uniqueItems constraint. A candidate takes between lo and hi draws.
type budgetBase struct {
	name, schema string
	kind         string // which budget: oneOf, if, unique (not and uniqueItems)
	lo, hi       int
	setup        int    // draws made once per value, besides the candidates
	ok           int    // 1: some candidates are valid, 0: none is, 2: all are
	prefix       string // what the give-up message starts with
}

const (
	giveUpOneOf  = "Failed to generate a valid value for the following oneOf constraint"
	giveUpIf     = "Failed to generate a valid value for the following if constraint"
	giveUpNot    = "Failed to generate a valid value for the following constraints"
	giveUpUnique = "Warning: Unable to generate unique item"
)

var budgetBases = []budgetBase{
	{"oneOf-never", `{"oneOf":[{"enum":[1,2]},{"enum":[1,2]}]}`, "oneOf", 2, 2, 0, 0, giveUpOneOf},
	{"oneOf-never3", `{"oneOf":[{"type":"boolean"},{"enum":[true,false]},{"type":["boolean"]}]}`, "oneOf", 2, 3, 0, 0, giveUpOneOf},
	{"oneOf-half", `{"oneOf":[{"enum":[1,2]},{"enum":[2,3]}]}`, "oneOf", 2, 2, 0, 1, giveUpOneOf},
	{"oneOf-rare", `{"oneOf":[{"enum":[1,2,3]},{"enum":[1,2,3,4]}]}`, "oneOf", 2, 2, 0, 1, giveUpOneOf},
	{"oneOf-always", `{"oneOf":[{"enum":[1,2]},{"enum":[3,4]}]}`, "oneOf", 2, 2, 0, 2, giveUpOneOf},
	{"oneOf-int", `{"oneOf":[{"type":"integer","minimum":0,"maximum":2},{"type":"integer","minimum":1,"maximum":3}]}`, "oneOf", 2, 2, 0, 1, giveUpOneOf},
	{"oneOf-object", `{"oneOf":[{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"]},{"type":"object","properties":{"a":{"enum":[2,3]}},"required":["a"]}]}`, "oneOf", 2, 6, 0, 1, giveUpOneOf},
	{"not-value", `{"type":"integer","minimum":0,"maximum":3,"not":{"enum":[0,1,2]}}`, "unique", 1, 1, 0, 1, giveUpNot},
	{"not-boolean", `{"type":"boolean","not":{"const":true}}`, "unique", 1, 1, 0, 1, giveUpNot},
	{"not-never", `{"type":"boolean","not":{"enum":[true,false]}}`, "unique", 1, 1, 0, 0, giveUpNot},
	{"not-never2", `{"type":"integer","minimum":0,"maximum":1,"not":{"enum":[0,1]}}`, "unique", 1, 1, 0, 0, giveUpNot},
	{"if-object", `{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"additionalProperties":false,"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"a":{"const":2}}}}`, "if", 1, 5, 0, 1, giveUpIf},
	{"if-never", `{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"additionalProperties":false,"if":{"properties":{"a":{"const":1}}},"then":{"properties":{"a":{"const":2}}},"else":{"properties":{"a":{"const":1}}}}`, "if", 1, 6, 0, 0, giveUpIf},
	{"if-array", `{"type":"array","items":{"enum":[1,2]},"minItems":1,"maxItems":1,"if":{"contains":{"const":1}},"then":{"items":{"const":2}},"else":{"contains":{"const":2}}}`, "if", 1, 8, 0, 1, giveUpIf},
	{"not-always", `{"type":"integer","minimum":0,"maximum":2,"not":{"enum":[5,7]}}`, "unique", 1, 1, 0, 2, giveUpNot},
	{"not-always-object", `{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"additionalProperties":false,"not":{"properties":{"a":{"const":3}}}}`, "unique", 1, 5, 0, 2, giveUpNot},
	{"if-always", `{"type":"object","properties":{"a":{"const":1},"b":{"enum":[1,2]}},"required":["a","b"],"additionalProperties":false,"if":{"properties":{"a":{"const":1}}},"then":{"required":["a"]}}`, "if", 1, 8, 0, 2, giveUpIf},
	{"if-always-not", `{"type":"object","properties":{"a":{"enum":[1,2]}},"required":["a"],"additionalProperties":false,"if":{"properties":{"a":{"const":5}}},"then":{"properties":{"a":{"const":2}}}}`, "if", 1, 6, 0, 2, giveUpIf},
	{"unique-never", `{"type":"array","items":{"const":1},"uniqueItems":true,"minItems":2,"maxItems":2}`, "unique", 0, 0, 4, 0, giveUpUnique},
	{"unique-two", `{"type":"array","items":{"enum":[1,2]},"uniqueItems":true,"minItems":2,"maxItems":2}`, "unique", 1, 1, 3, 1, giveUpUnique},
	{"unique-three", `{"type":"array","items":{"enum":[1,2]},"uniqueItems":true,"minItems":3,"maxItems":3}`, "unique", 1, 1, 3, 0, giveUpUnique},
	{"unique-tuple", `{"type":"array","prefixItems":[{"enum":[1,2]},{"enum":[1,2]}],"items":false,"uniqueItems":true,"minItems":2}`, "unique", 1, 1, 3, 1, giveUpUnique},
	{"unique-contains-three", `{"type":"array","items":{"enum":[1,2]},"contains":{"enum":[1,2]},"minContains":3,"uniqueItems":true,"maxItems":3}`, "unique", 1, 1, 3, 0, giveUpUnique},
	{"unique-contains-one", `{"type":"array","items":{"enum":[1,2]},"contains":{"const":1},"minContains":2,"uniqueItems":true,"maxItems":2}`, "unique", 0, 0, 6, 0, giveUpUnique},
	{"unique-contains", `{"type":"array","items":{"enum":[1,2]},"contains":{"const":1},"minContains":1,"uniqueItems":true,"minItems":2,"maxItems":2}`, "unique", 1, 1, 4, 1, giveUpUnique},
}

// sites: how many values of the base schema a context asks for; extra: its own draws at most.
type budgetContext struct {
	name   string
	text   func(s string) string
	sites  int
	lead   int // own draws at most
	retry  string
	parent bool // the give-up message of the base may be valid inside an own retry loop
}

var budgetContexts = []budgetContext{
	{"root", func(s string) string { return s }, 1, 0, "", false},
	{"property", func(s string) string {
		return `{"type":"object","properties":{"p":` + s + `},"required":["p"],"additionalProperties":false}`
	}, 1, 4, "", false},
	{"item", func(s string) string { return `{"type":"array","items":` + s + `,"minItems":1,"maxItems":1}` }, 1, 2, "", false},
	{"two", func(s string) string {
		return `{"type":"array","prefixItems":[` + s + `,` + s + `],"items":false,"minItems":2}`
	}, 2, 2, "", false},
	{"map", func(s string) string {
		return `{"type":"object","additionalProperties":` + s + `,"minProperties":1,"maxProperties":1}`
	}, 1, 40, "", false},
	{"ref", func(s string) string { return `{"$ref":"#/$defs/x","$defs":{"x":` + s + `}}` }, 1, 0, "", false},
	{"allOf", func(s string) string { return `{"allOf":[` + s + `]}` }, 1, 0, "", false},
	{"anyOf", func(s string) string { return `{"anyOf":[` + s + `]}` }, 1, 1, "", false},
	{"branch", func(s string) string {
		return `{"anyOf":[` + s + `,{"const":17.5}]}`
	}, 1, 1, "", false},
}

func messageBudget(msg string) int {
	i := strings.Index(msg, " after ")
	for i >= 0 {
		rest := msg[i+len(" after "):]
		if j := strings.Index(rest, " attempts"); j > 0 {
			if n, err := strconv.Atoi(rest[:j]); err == nil {
				return n
			}
		}
		k := strings.Index(rest, " after ")
		if k < 0 {
			return -1
		}
		i += len(" after ") + k
	}
	return -1
}

// markers lists the give-up messages within a value.
func markers(v interface{}, out *[]string) {
	switch x := v.(type) {
	case string:
		if hasMarker(x) != "" {
			*out = append(*out, x)
		}
	case []interface{}:
		for _, y := range x {
			markers(y, out)
		}
	case map[string]interface{}:
		for _, y := range x {
			markers(y, out)
		}
	}
}

func budgetOpts(kind string, n int) genOpts {
	o := genOpts{IfAttempts: 7, OneOfAttempts: 7, UniqueAttempts: 7, MaxSteps: 100000, Cutoff: 200000, ArrMax: 2, ObjMax: 2}
	switch kind {
	case "oneOf":
		o.OneOfAttempts = n
	case "if":
		o.IfAttempts = n
	case "unique":
		o.UniqueAttempts = n
	}
	return o
}

func budgetCases(tier string) []scase {
	th := tier == "thorough"
	var out []scase
	budgets := []int{1, 2, 3, 4, 9, 0}
	if th {
		budgets = []int{1, 2, 3, 4, 5, 6, 9, 25, 0}
	}
	for _, b := range budgetBases {
		for _, cx := range budgetContexts {
			for _, n := range budgets {
				if !th && n > 4 && cx.name != "root" && cx.name != "two" {
					continue
				}
				b, cx, n := b, cx, n
				eff := n
				if n == 0 {
					eff = 100
				}
				o := budgetOpts(b.kind, n)
				srch := searchCfg{smallN: 4, fullCap: 1500, devBound: 2, devCap: 300, exec: execCfg{horizon: 50000}}
				if !th && cx.name != "root" {
					srch.fullCap, srch.devCap, srch.devBound = 500, 100, 1
				}
				if th {
					srch.fullCap, srch.devCap = 40000, 4000
				}
				// one attempt more than the budget is generated and thrown away at most; arrays ask per item
				items := 1
				if b.prefix == giveUpUnique {
					items = 3
				}
				max := cx.lead + cx.sites*(b.setup+items*b.hi*(eff+1))
				min := b.lo * eff
				succeeded, gaveUp := map[int]bool{}, false
				c := scase{family: "budget-" + b.name + "-" + cx.name, schema: cx.text(b.schema), opts: o, search: srch, expect: expParse}
				c.onOutcome = func(out *outcome, v interface{}, raw, marker string) string {
					draws := len(out.trace)
					if draws > max {
						return fmt.Sprintf("more draws (%d) than a budget of %d attempts allows (%d)", draws, eff, max)
					}
					if marker == "" {
						succeeded[draws] = true
						return ""
					}
					var ms []string
					markers(v, &ms)
					gaveUp = true
					for _, m := range ms {
						if !strings.HasPrefix(m, b.prefix) {
							return "gave up with another message than the one of the constraint: " + m
						}
						if k := messageBudget(m); k != eff {
							return fmt.Sprintf("the message speaks of %d attempts instead of the budget of %d: %s", k, eff, m)
						}
					}
					if draws < min*len(ms) {
						return fmt.Sprintf("gave up %d times after %d draws, %d attempts each take %d at least", len(ms), draws, eff, min*len(ms))
					}
					return ""
				}
				c.atEnd = func() string {
					if b.ok != 2 && !gaveUp {
						return "no execution exhausts the budget"
					}
					if b.ok == 0 && len(succeeded) > 0 && cx.name != "branch" {
						return "an unsatisfiable constraint was satisfied"
					}
					if b.ok == 2 && gaveUp {
						return "gave up although every candidate is valid"
					}
					if b.ok == 1 && eff <= 4 && cx.name == "root" && b.lo == b.hi && b.kind != "unique" {
						for k := 1; k <= eff; k++ {
							if !succeeded[k*b.lo] {
								return fmt.Sprintf("no execution succeeds at attempt %d of %d", k, eff)
							}
						}
					}
					return ""
				}
				out = append(out, c)
			}
		}
	}
	out = append(out, nestedBudgetCases(th)...)
	out = append(out, scaledBudgetCases(th)...)
	return out
}

// nestedBudgetCases: budgets of nested constraints multiply and no more than that.
func nestedBudgetCases(th bool) []scase {
	var out []scase
	never := budgetBases[0].schema
	// every value of the outer schema needs one of the inner one
	nest := func(s string) string {
		return `{"oneOf":[{"type":"object","properties":{"a":` + s + `},"required":["a"],"additionalProperties":false},{"type":"object","properties":{"a":` + s + `},"required":["a"],"additionalProperties":false}]}`
	}
	notNest := func(s string) string {
		return `{"type":"array","prefixItems":[{"type":"boolean"},` + s + `],"items":false,"minItems":2,"not":{"prefixItems":[{"const":true}]}}`
	}
	uniqueNest := func(s string) string {
		return `{"type":"array","items":` + s + `,"uniqueItems":true,"minItems":2,"maxItems":2}`
	}
	for _, n := range []int{1, 2, 3, 5, 10} {
		srch := searchCfg{smallN: 4, fullCap: 300, devBound: 1, devCap: 150, exec: execCfg{horizon: 200000}}
		if th {
			srch.fullCap, srch.devCap, srch.devBound = 8000, 800, 2
		}
		inner := 2 * (n + 1)
		for _, x := range []struct {
			name, schema string
			max          int
		}{
			{"oneOf", nest(never), (n + 1) * (inner + 6)},
			{"oneOf2", nest(nest(never)), (n + 1) * ((n+1)*(inner+6) + 6)},
			{"not", notNest(never), (n + 1) * (inner + 4)},
			{"unique", uniqueNest(never), 3 + 2*(n+1)*inner},
			{"unique-oneOf", nest(uniqueNest(never)), (n + 1) * (9 + 2*(n+1)*inner)},
			{"half", nest(budgetBases[2].schema), (n + 1) * (inner + 6)},
		} {
			if n > 5 && x.name == "oneOf2" && !th {
				continue
			}
			x := x
			o := genOpts{IfAttempts: n, OneOfAttempts: n, UniqueAttempts: n, MaxSteps: 100000, Cutoff: 200000, ArrMax: 2, ObjMax: 2}
			c := scase{family: "nested-" + x.name, schema: x.schema, opts: o, search: srch, expect: expAny}
			c.onOutcome = func(out *outcome, v interface{}, raw, marker string) string {
				if d := len(out.trace); d > x.max {
					return fmt.Sprintf("more draws (%d) than nested budgets of %d attempts allow (%d)", d, n, x.max)
				}
				return ""
			}
			out = append(out, c)
		}
	}
	return out
}

// scaledBudgetCases: past the step limit budgets shrink, but a value is never
// passed off as valid before the cutoff, and one attempt is always made.
func scaledBudgetCases(th bool) []scase {
	var out []scase
	for _, b := range budgetBases {
		for _, steps := range []int{1, 2, 4, 8} {
			for _, cut := range []int{20, 60, 100000} {
				for _, n := range []int{-1, 1, 3, 6} {
					b, n := b, n
					o := budgetOpts(b.kind, n)
					o.MaxSteps, o.Cutoff = steps, cut
					srch := searchCfg{smallN: 4, fullCap: 80, devBound: 1, devCap: 30, exec: execCfg{horizon: 50000}}
					if th {
						srch.fullCap, srch.devCap, srch.devBound = 8000, 800, 2
					}
					sites := 6
					items := 1
					if b.prefix == giveUpUnique {
						items = 3
					}
					eff := n
					if n < 1 {
						eff = 1
					}
					max := 2 + sites*(b.setup+items*b.hi*(eff+1))
					schema := `{"type":"array","prefixItems":[` + strings.TrimSuffix(strings.Repeat(b.schema+",", sites), ",") + `],"items":false,"minItems":6}`
					c := scase{family: "scaled-" + b.name, schema: schema, opts: o, search: srch, expect: expParse}
					// with the step count unknown from outside, only runs that can not have reached the cutoff are judged for validity
					c.noVal = cut < 2*max+40
					c.onOutcome = func(out *outcome, v interface{}, raw, marker string) string {
						if d := len(out.trace); d > max {
							return fmt.Sprintf("more draws (%d) than %d budgets of %d attempts allow (%d)", d, sites, eff, max)
						}
						var ms []string
						markers(v, &ms)
						for _, m := range ms {
							if !strings.HasPrefix(m, b.prefix) {
								return "gave up with another message than the one of the constraint: " + m
							}
						}
						if b.ok == 2 && len(ms) > 0 {
							return "gave up although every candidate is valid: " + ms[0]
						}
						return ""
					}
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func init() {
	register(&property{
		id:    "C14",
		level: "model_checking",
		rule:  "The choice tree of each unsatisfiable or partly satisfiable constraint under each budget is enumerated: outputs are valid or carry the give-up message of the constraint, executions make no more draws than the budget allows and no fewer before giving up, and success is possible at every attempt.",
		jobs:  func(tier string) []job { return caseJobs(budgetCases(tier), 4) },
		notes: []string{"Attempts are observed as random draws: each candidate of the schemas used takes a known number of draws. Past the cutoff values are not filtered (C13)."},
	})
}
