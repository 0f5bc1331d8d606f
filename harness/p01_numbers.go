package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
)

// C01: numeric generation. Exhaustive product of bound kinds, bound values,
// multipleOf values and numeric types.

type numSpec struct {
	typ                     string
	min, max, xmin, xmax, m string
}

func (n numSpec) schema() string {
	s := `{"type":"` + n.typ + `"`
	add := func(k, v string) {
		if v != "" {
			s += `,"` + k + `":` + v
		}
	}
	add("minimum", n.min)
	add("exclusiveMinimum", n.xmin)
	add("maximum", n.max)
	add("exclusiveMaximum", n.xmax)
	add("multipleOf", n.m)
	return s + "}"
}

func ratOf(s string) *big.Rat { return rat(json.Number(s)) }

// satisfiable decides with exact arithmetic whether a value exists.
func (n numSpec) satisfiable() bool {
	var lo, hi *big.Rat
	loX, hiX := false, false
	setLo := func(s string, x bool) {
		if s == "" {
			return
		}
		r := ratOf(s)
		if lo == nil || r.Cmp(lo) > 0 || (r.Cmp(lo) == 0 && x) {
			lo, loX = r, x
		}
	}
	setHi := func(s string, x bool) {
		if s == "" {
			return
		}
		r := ratOf(s)
		if hi == nil || r.Cmp(hi) < 0 || (r.Cmp(hi) == 0 && x) {
			hi, hiX = r, x
		}
	}
	setLo(n.min, false)
	setLo(n.xmin, true)
	setHi(n.max, false)
	setHi(n.xmax, true)
	step := new(big.Rat)
	if n.m != "" {
		step = ratOf(n.m)
	}
	if n.typ == "integer" {
		if step.Sign() == 0 {
			step = big.NewRat(1, 1)
		} else {
			// lcm with 1: the alphabet only has multiples p/q; integers multiple of p/q are multiples of p
			step = new(big.Rat).SetInt(step.Num())
		}
	}
	if lo == nil || hi == nil {
		return true
	}
	if step.Sign() == 0 {
		c := lo.Cmp(hi)
		return c < 0 || (c == 0 && !loX && !hiX)
	}
	// smallest multiple >= lo (or > lo)
	q := new(big.Rat).Quo(lo, step)
	k := new(big.Int).Div(q.Num(), q.Denom()) // floor (Euclidean with positive denominator)
	v := new(big.Rat).Mul(new(big.Rat).SetInt(k), step)
	for v.Cmp(lo) < 0 || (loX && v.Cmp(lo) == 0) {
		k.Add(k, big.NewInt(1))
		v = new(big.Rat).Mul(new(big.Rat).SetInt(k), step)
	}
	c := v.Cmp(hi)
	return c < 0 || (c == 0 && !hiX)
}

func numCases(tier string) []scase {
	vals := []string{"-100", "-7.5", "-3", "-2.5", "-1", "-0.5", "0", "0.5", "1", "1.5", "2", "2.5", "3", "7", "10", "10.5", "100", "1000000"}
	mults := []string{"", "1", "2", "3", "5", "7", "0.5", "0.1", "0.25", "0.01", "1.5", "2.5", "12.5", "24", "100", "360", "1000", "99999"}
	big := []string{"-1e15", "1e15", "-4503599627370", "123456789012345"}
	if tier == "thorough" {
		vals = append(vals, "-1000000", "-33", "-20", "-10.25", "-0.1", "0.1", "0.3", "0.75", "4", "5", "6", "9.99", "20", "33", "99.5")
		mults = append(mults, "4", "6", "10", "11", "64", "0.2", "0.3", "0.05", "0.125", "3.3", "0.001")
		big = append(big, "1e14", "-1e14", "123456789012", "-123456789012")
	}
	var specs []numSpec
	for _, t := range []string{"number", "integer"} {
		for _, m := range mults {
			specs = append(specs, numSpec{typ: t, m: m})
			singles := append([]string{}, vals...)
			if m == "" || !strings.Contains(m, ".") {
				singles = append(singles, big...)
			}
			for _, a := range singles {
				specs = append(specs,
					numSpec{typ: t, m: m, min: a}, numSpec{typ: t, m: m, max: a},
					numSpec{typ: t, m: m, xmin: a}, numSpec{typ: t, m: m, xmax: a})
			}
			for i, a := range vals {
				for j, b := range vals {
					if ratOf(a).Cmp(ratOf(b)) > 0 {
						if m == "" && i-j < 3 {
							specs = append(specs, numSpec{typ: t, min: a, max: b})
						}
						continue
					}
					specs = append(specs,
						numSpec{typ: t, m: m, min: a, max: b}, numSpec{typ: t, m: m, xmin: a, max: b},
						numSpec{typ: t, m: m, min: a, xmax: b}, numSpec{typ: t, m: m, xmin: a, xmax: b})
					if m == "" || m == "1" {
						// both inclusive and exclusive bounds on one side
						specs = append(specs, numSpec{typ: t, m: m, min: a, xmin: b}, numSpec{typ: t, m: m, min: b, xmin: a},
							numSpec{typ: t, m: m, max: a, xmax: b}, numSpec{typ: t, m: m, max: b, xmax: a})
					}
				}
			}
		}
	}
	// values beyond the integers of a Go int (only values a float64 stands for exactly)
	huge := []string{"-1e300", "-1e19", "-1e18", "0", "9007199254740992", "1e18", "1e19", "1e22", "1e300"}
	for _, t := range []string{"number", "integer"} {
		for i, a := range huge {
			specs = append(specs, numSpec{typ: t, min: a}, numSpec{typ: t, max: a}, numSpec{typ: t, xmin: a}, numSpec{typ: t, xmax: a})
			for _, b := range huge[i+1:] {
				specs = append(specs, numSpec{typ: t, min: a, max: b}, numSpec{typ: t, xmin: a, xmax: b})
			}
		}
	}
	var out []scase
	for _, n := range specs {
		sc := scase{family: "number", schema: n.schema(), search: searchCfg{smallN: 1200, fullCap: 2000, policies: []policy{polLow, polHigh}}, expect: expReject, fair: false}
		if n.satisfiable() {
			sc.expect = expParse
			if n.typ == "integer" && strings.Contains(n.m, ".") {
				sc.expect = expAny // documented: fractional multipleOf is refused for integers
			}
		}
		out = append(out, sc)
	}
	return out
}

func init() {
	register(&property{
		id: "C01", level: "model_checking",
		rule:  "one case per combination of numeric type, bound kinds, bound values and multipleOf; every value the bounded domains of the random draws can select is generated and judged with exact decimal arithmetic; an outcome is non-trivial when it is a distinct generated value of a case",
		jobs:  func(tier string) []job { return caseJobs(numCases(tier), 40) },
		notes: []string{fmt.Sprint("float draws are explored at 7 points of [0,1) including 0, the largest value below 1 and their neighbours; integer draws up to 1200 alternatives are enumerated completely")},
	})
}
