package driver

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/engine"
)

// Main is the entry point of a simulation binary.
func Main(sys *System) int {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check PROP | replay FILE | show PROP SEED RUN")
		return 2
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "worker":
		return worker(sys, args)
	case "exec":
		return execFile(sys, args)
	case "server":
		return server(sys, args)
	case "check":
		return check(sys, args[0])
	case "replay":
		return replay(args[0])
	case "gen":
		limits()
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		run, _ := strconv.Atoi(args[2])
		os.Stdout.Write(sys.Gen(args[0], RunSeed(seed, run)).JSON())
		return 0
	case "show":
		limits()
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		run, _ := strconv.Atoi(args[2])
		p := sys.Gen(args[0], RunSeed(seed, run))
		r := sys.Run(p, true)
		fmt.Println(string(p.JSON()))
		fmt.Println(strings.Join(r.Log, "\n"))
		fmt.Printf("%+v\n", *r)
		return 0
	}
	return 2
}

func self(ctx context.Context, args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	c := exec.CommandContext(ctx, exe, args...)
	c.WaitDelay = 5 * time.Second
	return c
}

// chunkResult is the outcome of one worker process.
type chunkResult struct {
	from, to int
	sum      *Summary
	found    *found
	died     string // how the process ended, if it died
	diedAt   int
	stalled  bool
}

const stall = 150 * time.Second

func runChunk(prop string, seed uint64, from, to int) *chunkResult {
	r := &chunkResult{from: from, to: to, diedAt: -1}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := self(ctx, "worker", prop, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to))
	var errb tail
	c.Stderr = &errb
	pipe, err := c.StdoutPipe()
	if err != nil {
		r.died = err.Error()
		return r
	}
	if err := c.Start(); err != nil {
		r.died = err.Error()
		return r
	}
	last := time.Now()
	var mu sync.Mutex
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				mu.Lock()
				late := time.Since(last) > stall
				if late {
					r.stalled = true
				}
				mu.Unlock()
				if late {
					cancel()
					return
				}
			}
		}
	}()
	rd := bufio.NewReaderSize(pipe, 1<<16)
	ended := false
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 2 {
			mu.Lock()
			last = time.Now()
			mu.Unlock()
			switch line[0] {
			case 'S':
				r.diedAt, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			case 'V':
				r.found = &found{}
				if json.Unmarshal(line[2:], r.found) != nil {
					r.found = nil
				}
			case 'E':
				r.sum = &Summary{}
				ended = json.Unmarshal(line[2:], r.sum) == nil
			}
		}
		if err != nil {
			break
		}
	}
	werr := c.Wait()
	close(stop)
	if !ended && (r.found == nil || r.found.Broken == "") {
		r.died = reason(errb.String(), werr)
	}
	return r
}

// tail keeps the head of what a dying process said.
type tail struct{ b bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if room := 16<<10 - t.b.Len(); room > 0 {
		t.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}
func (t *tail) String() string { return t.b.String() }

func reason(stderr string, err error) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return strings.TrimSpace(l)
		}
	}
	return fmt.Sprint("process ended: ", err)
}

type outcome struct {
	alive bool
	res   *engine.Result
	why   string
}

// execute runs a replay file in a fresh process.
func execute(rp *Replay, flags ...string) outcome {
	dir, err := os.MkdirTemp("", "fontsim")
	if err != nil {
		return outcome{why: err.Error()}
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "plan.json")
	b, _ := json.Marshal(rp)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return outcome{why: err.Error()}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	c := self(ctx, append([]string{"exec", f}, flags...)...)
	var errb tail
	c.Stderr = &errb
	out, err := c.Output()
	for _, l := range bytes.Split(out, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("R ")) {
			r := &engine.Result{}
			if json.Unmarshal(l[2:], r) == nil {
				return outcome{alive: true, res: r}
			}
		}
	}
	if ctx.Err() != nil {
		return outcome{why: "timeout"}
	}
	return outcome{why: reason(errb.String(), err)}
}

// reproduces tells whether executing the replay file shows its violation.
func (rp *Replay) reproduces() (bool, *engine.Violation) {
	switch rp.Mode {
	case "death":
		o := execute(rp)
		if !o.alive && o.why != "timeout" {
			return true, &engine.Violation{Class: "death", Msg: "the process died: " + o.why}
		}
	case "history":
		a, b := execute(rp, "alone"), execute(rp)
		if a.alive && b.alive && a.res.Visible != b.res.Visible {
			return true, &engine.Violation{Class: "history", Msg: "the results of the last history depend on what ran in the process before"}
		}
	default:
		o := execute(rp)
		if o.alive {
			for i := range o.res.Violations {
				if v := &o.res.Violations[i]; v.Class == rp.Class {
					return true, v
				}
			}
		}
	}
	return false, nil
}

// shows executes the replay file until it shows its violation: once, unless the violation is known to depend on
// something no simulator of a Go program controls, such as the addresses of objects.
func (rp *Replay) shows() (bool, *engine.Violation) {
	for i := 0; ; i++ {
		if yes, v := rp.reproduces(); yes || i+1 >= rp.Tries {
			return yes, v
		}
	}
}

// persists makes up to attempts executions and, if only some of them show the violation, says so in the file.
func (rp *Replay) persists(attempts int) bool {
	for i := 0; i < attempts; i++ {
		if yes, _ := rp.reproduces(); yes {
			if i > 0 {
				rp.Tries = 4 * attempts
				rp.Note = "the code under test depends on something the schedule does not decide (addresses of objects, for one): executions of one and the same plan differ"
			}
			return true
		}
	}
	return false
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ok, v := rp.shows()
	if !ok {
		fmt.Printf("not reproduced: property=%s class=%s\n", rp.Property, rp.Class)
		return 0
	}
	o := execute(&rp, "with", "verbose")
	if o.alive {
		for _, l := range o.res.Log {
			fmt.Println("  " + l)
		}
	}
	fmt.Printf("%s: %s\n", v.At, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

// evaluator executes candidate plans in a long-lived child process.
type evaluator struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	cancel context.CancelFunc
	single bool // a process can execute one plan only
}

func (e *evaluator) stop() {
	if e.cmd != nil {
		e.in.Close()
		e.cancel()
		e.cmd.Wait()
		e.cmd = nil
	}
}

func (e *evaluator) violates(p *engine.Plan, class string) bool {
	if e.cmd == nil {
		ctx, cancel := context.WithCancel(context.Background())
		c := self(ctx, "server")
		in, err1 := c.StdinPipe()
		out, err2 := c.StdoutPipe()
		if err1 != nil || err2 != nil || c.Start() != nil {
			cancel()
			return false
		}
		e.cmd, e.in, e.out, e.cancel = c, in, bufio.NewReaderSize(out, 1<<16), cancel
	}
	e.in.Write(append(p.JSON(), '\n'))
	t := time.AfterFunc(90*time.Second, e.cancel)
	defer t.Stop()
	line, err := e.out.ReadBytes('\n')
	if err != nil {
		e.stop()
		return false
	}
	if e.single {
		e.stop()
	}
	var vs []engine.Violation
	json.Unmarshal(line[2:], &vs)
	for _, v := range vs {
		if v.Class == class {
			return true
		}
	}
	return false
}

type checkState struct {
	sys   *System
	prop  string
	tier  string
	seed  uint64
	known *knownSet
	start time.Time
	flaky []string
}

func check(sys *System, prop string) int {
	st := &checkState{sys: sys, prop: prop, tier: os.Getenv("VERIF_TIER"), start: time.Now(), known: loadKnown(prop)}
	if st.tier != "thorough" {
		st.tier = "quick"
	}
	st.seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	ok := false
	for _, p := range sys.Props {
		ok = ok || p == prop
	}
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	for _, f := range st.known.open {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
	}
	runs, limit := sys.Quick[prop], 300*time.Second
	if st.tier == "thorough" {
		runs, limit = sys.Thorough[prop], 700*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v > 0 {
		runs = v
	}
	workers := min(8, runtime.NumCPU())
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		workers = v
	}
	fmt.Printf("%s %s: VERIF_SEED=%d, up to %d simulated runs in %d processes\n", prop, st.tier, st.seed, runs, workers)

	var mu sync.Mutex
	next := 0
	stopAt := runs // no chunk starting at or beyond this run is needed any more
	var results []*chunkResult
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				from := next
				if from >= stopAt || from >= runs || time.Since(st.start) > limit {
					mu.Unlock()
					return
				}
				next += sys.Chunk
				mu.Unlock()
				r := runChunk(prop, st.seed, from, min(from+sys.Chunk, runs))
				mu.Lock()
				results = append(results, r)
				if r.died != "" {
					stopAt = min(stopAt, r.diedAt)
				}
				if r.found != nil {
					stopAt = min(stopAt, r.found.Run)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].from < results[j].from })
	total := merge(results)
	wall := time.Since(st.start)

	code := 0
	violations := 0
	for _, r := range results {
		if r.found != nil && r.found.Broken != "" {
			fmt.Printf("error: run %d: %s\n", r.found.Run, r.found.Broken)
			return 2
		}
		if r.found == nil && r.died == "" {
			continue
		}
		c, ok := st.report(r)
		if !ok {
			continue // passed when repeated
		}
		code = c
		if c == 1 {
			violations = 1
		}
		break
	}
	det := map[string]any{}
	if code == 0 {
		var c int
		det, c = st.determinism(results)
		if c != 0 {
			code = c
			violations = 1
		}
	}
	st.evidence(total, det, wall, violations, workers)
	if code == 0 {
		fmt.Printf("%s: held on %d simulated runs (%d distinct), %d operations, %.0f million statements, %.1fs\n", prop, total.Runs, len(total.Sigs), sumMap(total.Ops), float64(total.Steps)/1e6, wall.Seconds())
	}
	return code
}

func sumMap(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func merge(rs []*chunkResult) *Summary {
	t := &Summary{Decided: map[string]int{}, Fired: map[string]int{}, Ops: map[string]int{}}
	sig, tr, hit := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	for _, r := range rs {
		s := r.sum
		if s == nil {
			continue
		}
		t.Runs += s.Runs
		t.Steps += s.Steps
		t.SimTime += s.SimTime
		t.Solo += s.Solo
		t.Switches += s.Switches
		t.Crashes += s.Crashes
		t.MaxAlloc = max(t.MaxAlloc, s.MaxAlloc)
		t.Sites = max(t.Sites, s.Sites)
		for k, v := range s.Decided {
			t.Decided[k] += v
		}
		for k, v := range s.Fired {
			t.Fired[k] += v
		}
		for k, v := range s.Ops {
			t.Ops[k] += v
		}
		for _, k := range s.Sigs {
			sig[k] = true
		}
		for _, k := range s.Traces {
			tr[k] = true
		}
		for _, k := range s.Hit {
			hit[k] = true
		}
	}
	for k := range sig {
		t.Sigs = append(t.Sigs, k)
	}
	for k := range tr {
		t.Traces = append(t.Traces, k)
	}
	for k := range hit {
		t.Hit = append(t.Hit, k)
	}
	return t
}

// report confirms, minimises and prints what a chunk found. ok is false if it does not happen again.
func (st *checkState) report(r *chunkResult) (code int, ok bool) {
	rp := &Replay{Property: st.prop, Seed: st.seed}
	if r.found != nil {
		v := r.found.V[0]
		rp.Mode, rp.Run, rp.Class, rp.Message, rp.At = "plan", r.found.Run, v.Class, v.Msg, v.At
	} else {
		if r.stalled {
			fmt.Printf("error: run %d made no progress for %v: %s\n", r.diedAt, stall, r.died)
			return 2, true
		}
		rp.Mode, rp.Run, rp.Class, rp.Message = "death", r.diedAt, "death", "the process died: "+r.died
		if rp.Run < 0 {
			fmt.Printf("error: worker failed: %s\n", r.died)
			return 2, true
		}
	}
	fmt.Printf("run %d (seed %d): %s: %s: %s\n", rp.Run, RunSeed(st.seed, rp.Run), rp.Class, rp.At, rp.Message)
	rp.Plan = st.gen(rp.Run)
	if rp.Plan == nil {
		fmt.Println("error: the plan cannot be generated again")
		return 2, true
	}
	yes := rp.persists(8)
	if !yes {
		// Something earlier in the same process may be needed.
		for i := r.from; i < rp.Run; i++ {
			rp.Prefix = append(rp.Prefix, st.gen(i))
		}
		yes = rp.persists(8)
		if !yes {
			again := runChunk(st.prop, st.seed, r.from, r.to)
			if again.found == nil && again.died == "" {
				st.flaky = append(st.flaky, fmt.Sprintf("run %d: %s: %s", rp.Run, rp.Class, rp.Message))
				fmt.Printf("warning: run %d passes when repeated (%s)\n", rp.Run, rp.Message)
				if rp.Mode == "death" {
					return 0, false
				}
			}
			fmt.Printf("error: run %d does not replay: %s\n", rp.Run, rp.Message)
			return 2, true
		}
		if rp.Tries == 0 {
			st.shrinkPrefix(rp)
		}
	} else if rp.Tries == 0 {
		budget := 45 * time.Second
		if st.tier == "thorough" {
			budget = 120 * time.Second
		}
		ev := &evaluator{single: st.sys.Chunk == 1}
		defer ev.stop()
		test := func(p *engine.Plan) bool { return ev.violates(p, rp.Class) }
		if rp.Mode == "death" {
			test = func(p *engine.Plan) bool {
				q := *rp
				q.Plan = p
				y, _ := q.reproduces()
				return y
			}
		}
		small, tries := engine.Minimise(rp.Plan, budget, test)
		full := rp.Plan
		rp.Plan = small
		rp.Note = fmt.Sprintf("minimised from run %d in %d executions", rp.Run, tries)
		if y, _ := rp.reproduces(); !y {
			rp.Plan, rp.Note = full, "not minimised"
		}
	}
	y1, v := rp.shows()
	y2, _ := rp.shows()
	if (!y1 || !y2) && rp.Tries == 0 {
		y1 = rp.persists(8)
		y2, v = rp.shows()
	}
	if !y1 || !y2 {
		fmt.Printf("error: run %d does not replay reliably: %s\n", rp.Run, rp.Message)
		return 2, true
	}
	if rp.Tries > 0 {
		fmt.Println("note: " + rp.Note)
	}
	rp.Message, rp.At = v.Msg, v.At
	if o := execute(rp, "with", "verbose"); o.alive {
		rp.Trace = o.res.Log
	} else {
		rp.Trace = engine.Describe(rp.Plan)
	}
	file := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d-%d.json", st.prop, st.seed, rp.Run))
	if d := os.Getenv("VERIF_REPLAYS"); d != "" {
		file = filepath.Join(d, filepath.Base(file))
	}
	os.MkdirAll(filepath.Dir(file), 0o755)
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2, true
	}
	for _, l := range rp.Trace {
		if len(l) > 300 {
			l = l[:300] + "..."
		}
		fmt.Println("  " + l)
	}
	fmt.Printf("%s: %s: %s\n", rp.Class, rp.At, rp.Message)
	fmt.Printf("VIOLATION property=%s replay=%s\n", st.prop, file)
	return 1, true
}

func (st *checkState) gen(run int) (p *engine.Plan) {
	// Generation probes the code under test, so it happens in a child as well.
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	c := self(ctx, "gen", st.prop, fmt.Sprint(st.seed), fmt.Sprint(run))
	out, err := c.Output()
	if err != nil {
		return nil
	}
	p = &engine.Plan{}
	if json.Unmarshal(out, p) != nil {
		return nil
	}
	return p
}

func (st *checkState) shrinkPrefix(rp *Replay) {
	full := rp.Prefix
	end := time.Now().Add(90 * time.Second)
	for size := len(full) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(rp.Prefix) && time.Now().Before(end); {
			old := rp.Prefix
			rp.Prefix = append(append([]*engine.Plan{}, old[:i]...), old[i+size:]...)
			if y, _ := rp.reproduces(); y {
				continue
			}
			rp.Prefix = old
			i += size
		}
	}
	rp.Note = fmt.Sprintf("needs %d earlier histories in the same process", len(rp.Prefix))
}

// determinism re-executes a sample of runs in fresh processes and compares everything observable.
func (st *checkState) determinism(rs []*chunkResult) (map[string]any, int) {
	n := 16
	if st.prop == "C11" {
		n = 64
	}
	if st.tier == "thorough" {
		n *= 4
	}
	var pool []*chunkResult
	for _, r := range rs {
		if r.sum != nil && r.sum.Runs > 0 {
			pool = append(pool, r)
		}
	}
	var sel []*chunkResult
	for i := 0; i < n && len(pool) > 0; i++ {
		if len(pool) <= n {
			if i < len(pool) {
				sel = append(sel, pool[i])
			}
			continue
		}
		sel = append(sel, pool[i*len(pool)/n])
	}
	type cmp struct {
		r        *chunkResult
		vis, out bool
		died     bool
	}
	res := make([]cmp, len(sel))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, r := range sel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			q := runChunk(st.prop, st.seed, r.sum.Last, r.sum.Last+1)
			res[i].r = r
			if q.sum == nil {
				res[i].died = true
				return
			}
			res[i].vis = q.sum.Visible == r.sum.Visible
			res[i].out = q.sum.Outcome == r.sum.Outcome
		}()
	}
	wg.Wait()
	same, steps := 0, 0
	for _, c := range res {
		if c.vis {
			same++
		}
		if c.out {
			steps++
		}
	}
	det := map[string]any{"runs_executed_again_in_a_fresh_process": len(sel), "identical_results": same, "identical_statement_counts": steps}
	if same == len(sel) {
		return det, 0
	}
	for _, c := range res {
		if c.vis || c.died {
			continue
		}
		fmt.Printf("run %d gives other results in a fresh process than after %d earlier runs\n", c.r.sum.Last, c.r.sum.Last-c.r.from)
		if st.prop != "C11" {
			continue
		}
		rp := &Replay{Property: st.prop, Seed: st.seed, Mode: "history", Class: "history", Run: c.r.sum.Last, Plan: st.gen(c.r.sum.Last)}
		for i := c.r.from; i < rp.Run; i++ {
			rp.Prefix = append(rp.Prefix, st.gen(i))
		}
		y, v := rp.reproduces()
		if !y {
			fmt.Println("error: but not when replayed")
			return det, 2
		}
		st.shrinkPrefix(rp)
		rp.Message = v.Msg
		file := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%d-%d.json", st.prop, st.seed, rp.Run))
		if d := os.Getenv("VERIF_REPLAYS"); d != "" {
			file = filepath.Join(d, filepath.Base(file))
		}
		os.MkdirAll(filepath.Dir(file), 0o755)
		rp.Trace = engine.Describe(rp.Plan)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			return det, 2
		}
		fmt.Println(v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", st.prop, file)
		return det, 1
	}
	return det, 0
}

func (st *checkState) evidence(t *Summary, det map[string]any, wall time.Duration, violations, workers int) {
	var samples []any
	for _, i := range []int{0, 1, 2} {
		r := runChunk(st.prop, st.seed, i, i+1)
		if r.sum != nil {
			samples = append(samples, map[string]any{"run": i, "plan": r.sum.Sample})
		}
	}
	hours := wall.Hours()
	rate := func(n int) int {
		if hours <= 0 {
			return 0
		}
		return int(float64(n) / hours)
	}
	names := []string{}
	ev := map[string]any{
		"property": st.prop,
		"tier":     st.tier,
		"seed":     st.seed,
		"level":    "exploration",
		"wall_s":   time.Since(st.start).Seconds(),
		"coverage": map[string]any{
			"evaluations":                         t.Runs,
			"distinct_nontrivial":                 len(t.Sigs),
			"rule":                                "Each run is one plan (fonts, operations, faults, preemptions, crashes) drawn from one seed derived from VERIF_SEED and the run number and executed on the instrumented library. Non-trivial: the oracle decided at least one clause of the property on it. Distinct: different sequence of operations, outcomes, statements executed per operation, fired faults and task switches.",
			"samples":                             samples,
			"runs_per_hour":                       rate(t.Runs),
			"seeds_per_hour":                      rate(t.Runs),
			"operations":                          t.Ops,
			"statements_executed_under_simulator": t.Steps,
			"simulated_seconds":                   float64(t.SimTime) / 1e9,
			"undisturbed_reference_executions":    t.Solo,
			"clauses_decided":                     t.Decided,
			"faults_fired":                        t.Fired,
			"machine_crashes":                     t.Crashes,
			"task_switches":                       t.Switches,
			"distinct_interleavings":              len(t.Traces),
			"statements_reached":                  len(t.Hit),
			"statements_instrumented":             t.Sites,
			"largest_allocation_of_one_operation": t.MaxAlloc,
			"determinism":                         det,
			"not_reproduced":                      append(names, st.flaky...),
			"processes":                           workers,
			"real_components":                     st.sys.Real,
			"simulated_components":                st.sys.Stub,
		},
		"assumptions": []string{
			"sampled, not exhaustive: a clean batch is evidence, not proof",
			"the reference parser, generator and model in /verif/sim/sfnt are right",
			"the simulated disk (512-byte sectors, volatile and durable contents) covers what real ones do",
			"interleavings are at statement granularity on sequentially consistent memory",
		},
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, st.prop+".json"), append(b, '\n'), 0o644)
}
