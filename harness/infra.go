package main

// Jobs, worker processes, known findings, evidence.

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type job struct {
	key string // stable, human readable identity of the case
	run func(c *jctx)
}

type violation struct {
	Key    string          `json:"key"`
	Kind   string          `json:"kind"`
	Detail string          `json:"detail"`
	Replay json.RawMessage `json:"replay,omitempty"`
}

// jctx collects what one job did.
type jctx struct {
	prop  string
	tier  string
	key   string
	St    jobStats
	Viols []violation
	seen  map[string]bool

	docSeen map[string]bool
}

type jobStats struct {
	Cases       int            `json:"cases"`
	Executions  int            `json:"executions"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Outcomes    int            `json:"outcomes"` // distinct observed outcomes, summed over cases
	Complete    int            `json:"complete"` // cases whose choice tree was enumerated completely
	Bound1      int            `json:"bound1"`   // incomplete cases with deviation bound >= 1 completed
	Bound2      int            `json:"bound2"`
	Capped      int            `json:"capped"`
	Diverged    int            `json:"diverged"`
	MaxDepth    int            `json:"max_depth"`
	Disagree    int            `json:"oracle_disagreements"`
	Markers     int            `json:"marker_outcomes"`
	Rejected    int            `json:"rejected_cases"`
	Extra       map[string]int `json:"extra,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
}

func (a *jobStats) add(b *jobStats) {
	a.Cases += b.Cases
	a.Executions += b.Executions
	a.States += b.States
	a.Transitions += b.Transitions
	a.Outcomes += b.Outcomes
	a.Complete += b.Complete
	a.Bound1 += b.Bound1
	a.Bound2 += b.Bound2
	a.Capped += b.Capped
	a.Diverged += b.Diverged
	a.Disagree += b.Disagree
	a.Markers += b.Markers
	a.Rejected += b.Rejected
	if b.MaxDepth > a.MaxDepth {
		a.MaxDepth = b.MaxDepth
	}
	for k, v := range b.Extra {
		if a.Extra == nil {
			a.Extra = map[string]int{}
		}
		a.Extra[k] += v
	}
	if len(a.Samples) < 12 {
		a.Samples = append(a.Samples, b.Samples...)
	}
}

func (c *jctx) extra(k string, n int) {
	if c.St.Extra == nil {
		c.St.Extra = map[string]int{}
	}
	c.St.Extra[k] += n
}

func (c *jctx) addSearch(s searchStats, outcomes int) {
	c.St.Cases++
	c.St.Executions += s.Executions
	c.St.States += s.States
	c.St.Transitions += s.Transitions
	c.St.Outcomes += outcomes
	c.St.Diverged += s.Diverged
	if s.MaxDepth > c.St.MaxDepth {
		c.St.MaxDepth = s.MaxDepth
	}
	switch {
	case s.Complete:
		c.St.Complete++
	case s.DevBound >= 2:
		c.St.Bound2++
	case s.DevBound >= 1:
		c.St.Bound1++
	default:
		c.St.Capped++
	}
}

func (c *jctx) report(kind, detail string, replay interface{}) {
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	if c.seen[c.key+"\x00"+kind] {
		return
	}
	c.seen[c.key+"\x00"+kind] = true
	raw, _ := json.Marshal(replay)
	c.Viols = append(c.Viols, violation{c.key, kind, detail, raw})
}

func (c *jctx) reported(kind string) bool { return c.seen[c.key+"\x00"+kind] }

func (c *jctx) thorough() bool { return c.tier == "thorough" }

// ---- property registry

type property struct {
	id    string
	level string
	rule  string
	jobs  func(tier string) []job
	notes []string // assumptions
	// post runs in the master after the jobs (other engines, race passes, ...)
	post  func(c *jctx)
	procs int  // worker processes (0: 8)
	race  bool // run the jobs in a build with the race detector, too
	cli   bool // build the command line tool first
}

var registry = map[string]*property{}

func register(p *property) { registry[p.id] = p }

// ---- worker

type wireMsg struct {
	T     string      `json:"t"` // start | done | end
	I     int         `json:"i"`
	Key   string      `json:"key,omitempty"`
	St    *jobStats   `json:"st,omitempty"`
	Viols []violation `json:"v,omitempty"`
}

func workerMain(p *property, tier string, shard, n, from int, budget time.Duration) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	installHooks()
	out := bufio.NewWriterSize(os.NewFile(3, "wire"), 1<<16)
	enc := json.NewEncoder(out)
	jobs := p.jobs(tier)
	deadline := time.Now().Add(budget)
	beat := time.Now()
	heartbeat = func() {
		if time.Since(beat) > 5*time.Second {
			beat = time.Now()
			enc.Encode(wireMsg{T: "alive"})
			out.Flush()
		}
	}
	for i, j := range jobs {
		if i%n != shard || i < from {
			continue
		}
		if time.Now().After(deadline) {
			enc.Encode(wireMsg{T: "late", I: i})
			continue
		}
		enc.Encode(wireMsg{T: "start", I: i, Key: j.key})
		out.Flush()
		c := &jctx{prop: p.id, tier: tier, key: j.key}
		j.run(c)
		enc.Encode(wireMsg{T: "done", I: i, Key: j.key, St: &c.St, Viols: c.Viols})
	}
	enc.Encode(wireMsg{T: "end"})
	out.Flush()
}

type runResult struct {
	st    jobStats
	viols []violation
	jobs  int
	late  int
}

const stallLimit = 120 * time.Second

// runJobs distributes the jobs of p over worker processes.
func runJobs(p *property, tier string, budget time.Duration, exe string) *runResult {
	n := p.procs
	if n == 0 {
		n = 8
		if s := os.Getenv("VERIF_PROCS"); s != "" {
			fmt.Sscan(s, &n)
		}
	}
	res := &runResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			from, restarts := 0, 0
			deadline := time.Now().Add(budget)
			for {
				last, lastKey, ended, why := runWorker(exe, p, tier, s, n, from, time.Until(deadline), res, &mu)
				if ended {
					return
				}
				mu.Lock()
				if last < 0 {
					res.viols = append(res.viols, violation{Key: "harness", Kind: "harness-error", Detail: why})
					mu.Unlock()
					return
				}
				rep, _ := json.Marshal(map[string]interface{}{"property": p.id, "job": lastKey, "tier": tier})
				res.viols = append(res.viols, violation{Key: lastKey, Kind: "process-death", Detail: why, Replay: rep})
				mu.Unlock()
				from = last + 1
				if restarts++; restarts > 20 {
					return
				}
			}
		}(s)
	}
	wg.Wait()
	return res
}

func runWorker(exe string, p *property, tier string, shard, n, from int, budget time.Duration, res *runResult, mu *sync.Mutex) (last int, lastKey string, ended bool, why string) {
	last = -1
	r, w, err := os.Pipe()
	if err != nil {
		return -1, "", false, err.Error()
	}
	cmd := exec.Command(exe, "worker", p.id, tier, fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(from), fmt.Sprint(int64(budget)))
	cmd.ExtraFiles = []*os.File{w}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", raceEnv())
	errb := &tailBuf{}
	cmd.Stderr = errb
	if err := cmd.Start(); err != nil {
		return -1, "", false, err.Error()
	}
	w.Close()
	lines := make(chan wireMsg, 256)
	go func() {
		sc := json.NewDecoder(bufio.NewReaderSize(r, 1<<20))
		for {
			var m wireMsg
			if sc.Decode(&m) != nil {
				break
			}
			lines <- m
		}
		close(lines)
	}()
	running := false
	timer := time.NewTimer(stallLimit)
	for {
		select {
		case m, ok := <-lines:
			if !ok {
				err := cmd.Wait()
				r.Close()
				if !running {
					last = -1
				}
				return last, lastKey, ended, fmt.Sprintf("worker died: %v: %s", err, errb.String())
			}
			timer.Reset(stallLimit)
			switch m.T {
			case "start":
				last, lastKey, running = m.I, m.Key, true
			case "late":
				mu.Lock()
				res.late++
				mu.Unlock()
			case "done":
				running = false
				mu.Lock()
				res.jobs++
				res.st.add(m.St)
				res.viols = append(res.viols, m.Viols...)
				mu.Unlock()
				failFast(p.id, m.Viols)
			case "end":
				ended = true
			}
		case <-timer.C:
			cmd.Process.Kill()
			cmd.Wait()
			return last, lastKey, false, fmt.Sprintf("no progress for %v: the call does not return", stallLimit)
		}
	}
}

// failFast ends the check at the first violation. Only used to measure the checks (tools/mutate).
func failFast(id string, vs []violation) {
	if os.Getenv("VERIF_FAILFAST") == "" {
		return
	}
	for _, v := range vs {
		known := false
		for _, k := range loadFindings(id) {
			for _, cs := range k.Cases {
				known = known || cs.Key == v.Key && cs.Kind == v.Kind
			}
		}
		if !known {
			fmt.Printf("VIOLATION property=%s replay=none\n  case: %s\n", id, v.Key)
			os.RemoveAll(os.Getenv("TMPDIR"))
			os.Exit(1)
		}
	}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 4000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// ---- known findings

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Cases    []struct {
		Key  string `json:"key"`
		Kind string `json:"kind"`
	} `json:"cases"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings(prop string) []finding {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue // "fixed:" lines and comments
		}
		var k finding
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			fmt.Println("known_findings.jsonl: bad line:", err)
			os.Exit(3)
		}
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func shortHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

// ---- the check command

func checkMain(id, tier string) int {
	p := registry[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	start := time.Now()
	budget := 100 * time.Second
	if tier == "thorough" {
		budget = 25 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		budget = time.Duration(n) * time.Second
	}
	// files the checks create (and let the code under test see) live below a scratch folder of this run
	scratch, err := os.MkdirTemp("", "verif-scratch-")
	if err != nil {
		fmt.Println("harness error:", err)
		return 3
	}
	defer os.RemoveAll(scratch)
	os.Setenv("TMPDIR", scratch)
	res := &runResult{}
	if p.cli {
		cmd := exec.Command("bash", filepath.Join(verifDir(), "tools/build.sh"), filepath.Join(scratch, "go-chaff"))
		cmd.Env = append(os.Environ(), "VERIF_TARGET=./cli")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("harness error: the command line tool does not build: %v\n%s\n", err, out)
			return 3
		}
		os.Setenv("VERIF_CLI", filepath.Join(scratch, "go-chaff"))
	}
	if p.jobs != nil {
		exe, _ := os.Executable()
		res = runJobs(p, tier, budget, exe)
	}
	if p.race {
		bin := filepath.Join(scratch, "harness.race")
		if out, err := exec.Command("bash", filepath.Join(verifDir(), "tools/build.sh"), bin, "-race").CombinedOutput(); err != nil {
			fmt.Printf("harness error: no build with the race detector: %v\n%s\n", err, out)
			return 3
		}
		r := runJobs(p, tier, budget, bin)
		res.st.add(&r.st)
		res.viols = append(res.viols, r.viols...)
		res.jobs += r.jobs
		res.late += r.late
	}
	if p.post != nil {
		c := &jctx{prop: id, tier: tier, key: "post"}
		p.post(c)
		res.st.add(&c.St)
		res.viols = append(res.viols, c.Viols...)
	}
	known := loadFindings(id)
	match := map[string]int{}
	for i, k := range known {
		for _, cs := range k.Cases {
			match[cs.Key+"\x00"+cs.Kind] = i + 1
		}
	}
	hits := map[int]int{}
	var fresh []violation
	harnessErr := ""
	sort.SliceStable(res.viols, func(i, j int) bool { return len(res.viols[i].Key) < len(res.viols[j].Key) })
	for _, v := range res.viols {
		if v.Kind == "harness-error" {
			harnessErr = v.Detail
			continue
		}
		if i := match[v.Key+"\x00"+v.Kind]; i != 0 {
			hits[i]++
			continue
		}
		fresh = append(fresh, v)
	}
	for i, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d of %d listed cases fail in this run)\n", id, k.ID, k.What, hits[i+1], len(k.Cases))
	}
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
	kinds := map[string]int{}
	for i, v := range fresh {
		kinds[v.Kind]++
		if i >= 20 {
			continue
		}
		path := filepath.Join(verifDir(), "replays", id+"-"+shortHash(v.Key+v.Kind)+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "key": v.Key, "kind": v.Kind, "detail": v.Detail, "replay": v.Replay, "how": "harness replay FILE (see DESIGN.md)"}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		d := v.Detail
		if len(d) > 600 {
			d = d[:600] + "..."
		}
		fmt.Printf("  case: %s\n  kind: %s\n  %s\n", v.Key, v.Kind, strings.ReplaceAll(d, "\n", "\n  "))
	}
	if len(fresh) > 20 {
		fmt.Printf("  ... and %d more violating cases; by kind: %v\n", len(fresh)-20, kinds)
	}
	if dump := os.Getenv("VERIF_DUMP"); dump != "" {
		f, _ := os.Create(dump)
		e := json.NewEncoder(f)
		e.SetEscapeHTML(false)
		for _, v := range fresh {
			e.Encode(v)
		}
		f.Close()
	}
	writeEvidence(p, tier, res, len(fresh), len(res.viols)-len(fresh), time.Since(start))
	st := res.st
	fmt.Printf("%s %s: %d jobs (%d not started in time), %d cases (%d enumerated completely, %d bound 2, %d bound 1, %d capped, %d rejected by the parser), %d executions, %d states, %d distinct outcomes, diverged %d, oracle disagreements %d, %v, %.1fs\n",
		id, tier, res.jobs, res.late, st.Cases, st.Complete, st.Bound2, st.Bound1, st.Capped, st.Rejected, st.Executions, st.States, st.Outcomes, st.Diverged, st.Disagree, st.Extra, time.Since(start).Seconds())
	if len(fresh) > 0 {
		return 1
	}
	if harnessErr != "" {
		fmt.Println("harness error:", harnessErr)
		return 3
	}
	return 0
}

func writeEvidence(p *property, tier string, res *runResult, fresh, knownN int, wall time.Duration) {
	st := res.st
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	samples := make([]interface{}, 0)
	for _, s := range st.Samples {
		if len(s) > 400 {
			s = s[:400]
		}
		samples = append(samples, s)
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	cov := map[string]interface{}{
		"states":                        st.States,
		"transitions":                   st.Transitions,
		"traces_validated_against_impl": st.Executions,
		"evaluations":                   st.Executions,
		"distinct_nontrivial":           st.Outcomes,
		"rule":                          p.rule,
		"samples":                       samples,
		"cases":                         st.Cases,
		"cases_enumerated_completely":   st.Complete,
		"cases_deviation_bound_2":       st.Bound2,
		"cases_deviation_bound_1":       st.Bound1,
		"cases_capped":                  st.Capped,
		"cases_rejected_by_parser":      st.Rejected,
		"jobs_not_started_in_time":      res.late,
		"max_choice_depth":              st.MaxDepth,
		"give_up_marker_outcomes":       st.Markers,
		"replay_divergences":            st.Diverged,
		"oracle_disagreements":          st.Disagree,
		"known_finding_hits":            knownN,
		"exhaustive":                    res.late == 0 && st.Capped == 0 && st.Bound1 == 0 && st.Bound2 == 0 && st.Cases > 0,
	}
	for k, v := range st.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.notes, "wall_s": wall.Seconds(), "violations": fresh,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", p.id+".json"), append(b, '\n'), 0o644)
}
