package main

// The explorer: stateless, deviation-bounded depth-first search over the choice
// tree of one closed system (one parsed schema, one set of options). Every draw
// from math/rand made by the code under test is a choice point; map iteration
// order is fixed by the environment variant; nothing else is nondeterministic.

import (
	"fmt"
	mrand "math/rand"
	"reflect"
	"runtime"
	"strings"
	_ "unsafe"

	"github.com/go-faker/faker/v4"
)

//go:linkname verifMapMode internal/runtime/maps.verifMapMode
var verifMapMode uint64

//go:linkname verifMapRot internal/runtime/maps.verifMapRot
var verifMapRot uint64

//go:linkname verifMapStep internal/runtime/maps.verifMapStep
var verifMapStep uint64

//go:linkname verifMapCount internal/runtime/maps.verifMapCount
var verifMapCount uint64

// ---- choice points

type point struct {
	kind int    // mrand.VerifBounded / VerifBits / VerifFloat
	n    uint64 // domain parameter
	val  uint64 // value taken
}

// env is the part of the environment fixed for a whole execution.
type env struct {
	Rot  uint64 `json:"rot"`  // rotation of every map iteration
	Step uint64 `json:"step"` // added per map iteration
}

// policy answers the choice points that follow the forced prefix.
type policy int

const (
	polLow policy = iota
	polHigh
	polRR1 // round robin, stride 1
	polRR2 // round robin, stride 3 offset 1
	polRR3 // round robin, stride 5 offset 2
	polMid
	polRR4 // stride 7, offset 3
	polMix // fixed mixing of the position, a "typical" stream
	polMix2
	polMix3
)

func (p policy) pick(pos int, kind int, n uint64) uint64 {
	max := domMax(kind, n)
	rr := func(stride, off uint64) uint64 {
		x := uint64(pos)*stride + off
		if kind == mrand.VerifBounded {
			if n <= 64 {
				return x % n
			}
			return frac(max, x%17, 16)
		}
		return frac(max, x%17, 16)
	}
	switch p {
	case polHigh:
		return max
	case polMid:
		return max / 2
	case polRR1:
		return rr(1, 0)
	case polRR2:
		return rr(3, 1)
	case polRR3:
		return rr(5, 2)
	case polRR4:
		return rr(7, 3)
	case polMix, polMix2, polMix3:
		x := mix64(uint64(pos)*0x9e3779b97f4a7c15 + uint64(p)*1234567)
		if max == ^uint64(0) {
			return x
		}
		return x % (max + 1)
	}
	return 0
}

func frac(max, num, den uint64) uint64 {
	if num == den {
		return max
	}
	return max / den * num
}

func domMax(kind int, n uint64) uint64 {
	switch kind {
	case mrand.VerifBounded:
		return n - 1
	default:
		if n >= 64 {
			return ^uint64(0)
		}
		return 1<<n - 1
	}
}

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// domain lists the alternatives explored at a choice point. smallN bounds the
// size up to which a bounded draw is enumerated completely.
func domain(kind int, n uint64, smallN uint64) []uint64 {
	max := domMax(kind, n)
	if max < smallN {
		out := make([]uint64, 0, max+1)
		for i := uint64(0); i <= max; i++ {
			out = append(out, i)
		}
		return out
	}
	if kind == mrand.VerifFloat {
		half := uint64(1) << (n - 1)
		return []uint64{0, max, half, half / 2, half + half/2, 1, max - 1}
	}
	return []uint64{0, max, 1, max - 1, max / 2, max / 3}
}

func domainComplete(kind int, n uint64, smallN uint64) bool { return domMax(kind, n) < smallN }

// ---- controller: owns the randomness of one execution

type fakerSource struct{ mrand.Source }

type horizonPanic struct{ draws int }

type controller struct {
	on        bool
	quietAll  bool // parse phase: draws take the fixed default stream
	openQuiet bool // treat faker / regen draws as choice points, too
	prefix    []uint64
	pol       policy
	trace     []point
	quiet     uint64 // counter of the fixed default stream
	draws     int
	horizon   int
	diverged  bool
	onDraw    func() // scheduling point (concurrency check)
}

var ctl controller
var theFakerSource = &fakerSource{mrand.NewSource(1)}

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	for i := range p {
		v, ok := hook(nil, mrand.VerifBits, 8)
		if !ok {
			v = uint64(i)
		}
		p[i] = byte(v)
	}
	return len(p), nil
}

func hook(src mrand.Source, kind int, n uint64) (uint64, bool) {
	c := &ctl
	if !c.on {
		return 0, false
	}
	c.draws++
	if c.draws > c.horizon {
		panic(horizonPanic{c.draws})
	}
	if c.onDraw != nil {
		c.onDraw()
	}
	// Rejection loops of the faker package redraw raw bits until they fit: answering
	// them adversarially is an unfair environment, so they always take the fixed stream.
	if c.quietAll || (kind == mrand.VerifBits && src == mrand.Source(theFakerSource)) || (!c.openQuiet && (src == nil || isQuiet(src))) {
		c.quiet++
		x := mix64(c.quiet * 0x9e3779b97f4a7c15)
		max := domMax(kind, n)
		if max == ^uint64(0) {
			return x, true
		}
		return x % (max + 1), true
	}
	i := len(c.trace)
	var v uint64
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v > domMax(kind, n) {
			c.diverged = true
			v = domMax(kind, n)
		}
	} else {
		v = c.pol.pick(i, kind, n)
	}
	c.trace = append(c.trace, point{kind, n, v})
	return v, true
}

func isQuiet(src mrand.Source) bool {
	if src == mrand.Source(theFakerSource) {
		return true
	}
	t := reflect.TypeOf(src)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return strings.HasSuffix(t.PkgPath(), "internal/regen") // the private source of the regular expressions
}

var quietCache = map[string]bool{}

func installHooks() {
	if raceBuild { // the race pass leaves everything but the sources of the callers as it is
		return
	}
	faker.SetRandomSource(theFakerSource)
	faker.SetCryptoSource(cryptoReader{})
	mrand.VerifHook = hook
}

// ---- one execution

type outcome struct {
	val     interface{}
	trace   []point
	panicV  string // "" when none
	horizon bool
	diverge bool
}

func (o *outcome) choices() []uint64 {
	out := make([]uint64, len(o.trace))
	for i, p := range o.trace {
		out[i] = p.val
	}
	return out
}

type execCfg struct {
	horizon   int
	openQuiet bool
	onDraw    func()
}

// runCtl runs f with all randomness under control and recovers its panics.
func runCtl(e env, cfg execCfg, prefix []uint64, pol policy, f func() interface{}) (out outcome) {
	h := cfg.horizon
	if h == 0 {
		h = 400000
	}
	ctl = controller{on: true, openQuiet: cfg.openQuiet, prefix: prefix, pol: pol, horizon: h, onDraw: cfg.onDraw, trace: ctl.trace[:0]}
	verifMapRot, verifMapStep, verifMapCount, verifMapMode = e.Rot, e.Step, 0, 1
	defer func() {
		verifMapMode = 0
		ctl.on = false
		out.trace = append([]point(nil), ctl.trace...)
		out.diverge = ctl.diverged
		if r := recover(); r != nil {
			if _, ok := r.(horizonPanic); ok {
				out.horizon = true
				return
			}
			out.panicV = fmt.Sprintf("%v at %s", r, panicSite())
		}
	}()
	out.val = f()
	return
}

// runQuiet runs f with all draws answered by the fixed default stream (parsing).
func runQuiet(e env, f func()) (panicV string) {
	ctl = controller{on: true, quietAll: true, horizon: 1 << 40}
	verifMapRot, verifMapStep, verifMapCount, verifMapMode = e.Rot, e.Step, 0, 1
	defer func() {
		verifMapMode = 0
		ctl.on = false
		if r := recover(); r != nil {
			panicV = fmt.Sprintf("%v at %s", r, panicSite())
		}
	}()
	f()
	return
}

func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "go-chaff") && !strings.Contains(f.Function, "zz_verif_harness") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			return fn
		}
		if !more {
			return "?"
		}
	}
}

// ---- search

type searchCfg struct {
	exec     execCfg
	smallN   uint64   // bounded domains up to this size are complete
	fullCap  int      // executions allowed for the complete enumeration
	devBound int      // deviation bound of the fallback
	devCap   int      // executions allowed per policy in the fallback
	maxPos   int      // positions eligible for deviation in the fallback (0: all)
	policies []policy // base schedules
	floatPts uint64   // float draws: evenly spaced alternatives added
}

func (cfg *searchCfg) domain(kind int, n uint64) []uint64 {
	out := domain(kind, n, cfg.smallN)
	if kind == mrand.VerifFloat && cfg.floatPts > 0 {
		for i := uint64(1); i < cfg.floatPts; i++ {
			out = append(out, frac(domMax(kind, n), i, cfg.floatPts))
		}
	}
	return out
}

type searchStats struct {
	Executions  int  `json:"executions"`
	States      int  `json:"states"`      // distinct choice-tree nodes visited
	Transitions int  `json:"transitions"` // choices taken at new nodes
	Complete    bool `json:"complete"`    // the (reduced-domain) tree was enumerated completely
	DomComplete bool `json:"dom_complete"`
	MaxDepth    int  `json:"max_depth"`
	Diverged    int  `json:"diverged"`
	DevBound    int  `json:"dev_bound"` // deviation bound completed when !Complete
}

var heartbeat func()

// search explores f and calls visit on every execution; visit returns false to stop.
// sched tells which base schedule and how many deviations produced the execution.
func search(e env, cfg searchCfg, f func() interface{}, visit func(o *outcome, pol policy, devs int) bool) searchStats {
	st := searchStats{DomComplete: true, DevBound: -1}
	stop := false
	run := func(prefix []uint64, pol policy, devs int) outcome {
		o := runCtl(e, cfg.exec, prefix, pol, f)
		st.Executions++
		if heartbeat != nil {
			heartbeat()
		}
		if o.diverge {
			st.Diverged++
		}
		if len(o.trace) > st.MaxDepth {
			st.MaxDepth = len(o.trace)
		}
		if nn := len(o.trace) - len(prefix); nn >= 0 {
			st.States += nn + 1
			st.Transitions += nn
			if len(prefix) > 0 {
				st.Transitions++
			}
		}
		if !visit(&o, pol, devs) {
			stop = true
		}
		return o
	}
	// Base schedules first: the simplest counterexamples.
	for _, p := range cfg.policies {
		run(nil, p, 0)
		if stop {
			return st
		}
	}
	// Complete enumeration.
	capped := false
	start := st.Executions
	var dfs func(prefix []uint64)
	dfs = func(prefix []uint64) {
		if stop || capped {
			return
		}
		if st.Executions-start >= cfg.fullCap {
			capped = true
			return
		}
		o := run(prefix, polLow, len(prefix))
		if stop || o.horizon {
			return
		}
		ch := o.choices()
		for i := len(o.trace) - 1; i >= len(prefix); i-- {
			p := o.trace[i]
			if !domainComplete(p.kind, p.n, cfg.smallN) {
				st.DomComplete = false
			}
			for _, a := range cfg.domain(p.kind, p.n) {
				if a == p.val {
					continue
				}
				dfs(append(append(make([]uint64, 0, i+1), ch[:i]...), a))
				if stop || capped {
					return
				}
			}
		}
	}
	if cfg.fullCap > 0 {
		dfs(nil)
		if stop {
			return st
		}
		if !capped {
			st.Complete = true
			return st
		}
	}
	// Deviation-bounded search around each base schedule, bound iterated.
	for d := 1; d <= cfg.devBound; d++ {
		bounded := true
		for _, p := range cfg.policies {
			used := 0
			var dev func(prefix []uint64, left int)
			dev = func(prefix []uint64, left int) {
				if stop {
					return
				}
				if used >= cfg.devCap {
					bounded = false
					return
				}
				used++
				o := run(prefix, p, d-left)
				if stop || left == 0 || o.horizon {
					return
				}
				ch := o.choices()
				for i := len(prefix); i < len(o.trace); i++ {
					if cfg.maxPos > 0 && i >= cfg.maxPos {
						bounded = false
						break
					}
					pt := o.trace[i]
					for _, a := range cfg.domain(pt.kind, pt.n) {
						if a == pt.val {
							continue
						}
						dev(append(append(make([]uint64, 0, i+1), ch[:i]...), a), left-1)
						if stop {
							return
						}
					}
				}
			}
			dev(nil, d)
			if stop {
				return st
			}
		}
		if bounded {
			st.DevBound = d
		} else {
			break
		}
	}
	return st
}
