// Package driver runs many simulated histories in parallel processes, confirms, minimises and reports
// violations, and writes the evidence.
package driver

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"

	"github.com/sirupsen/logrus"

	"verifsim/engine"
	"verifsim/prng"
)

// System is what is simulated: how plans are drawn and executed.
type System struct {
	Gen   func(prop string, seed uint64) *engine.Plan
	Run   func(p *engine.Plan, verbose bool) *engine.Result
	Props []string
	// Real and Stub name the components that ran real code and those that were simulated.
	Real, Stub []string
	// Chunk is how many runs one process executes.
	Chunk int
	// Quick and Thorough are the numbers of runs per property.
	Quick, Thorough map[string]int
}

// RunSeed is the seed of the i-th run of a check.
func RunSeed(seed uint64, i int) uint64 { return prng.Mix(seed, 0x72756e, uint64(i)) }

// Summary is what a worker reports about its chunk.
type Summary struct {
	Runs     int            `json:"runs"`
	Steps    int64          `json:"steps"`
	SimTime  int64          `json:"simTime"`
	Solo     int64          `json:"solo"`
	Switches int            `json:"switches"`
	Crashes  int            `json:"crashes"`
	Decided  map[string]int `json:"decided"`
	Fired    map[string]int `json:"fired"`
	Ops      map[string]int `json:"ops"`
	MaxAlloc uint64         `json:"maxAlloc"`
	Sigs     []uint64       `json:"sigs"`
	Traces   []uint64       `json:"traces"`
	Sites    int            `json:"sites"`
	Hit      []int          `json:"hit"`
	Last     int            `json:"last"`
	Visible  uint64         `json:"visible"`
	Outcome  uint64         `json:"outcome"`
	Sample   []string       `json:"sample,omitempty"`
}

type found struct {
	Run    int                `json:"run"`
	V      []engine.Violation `json:"v"`
	Broken string             `json:"broken,omitempty"`
}

const memLimit = 6 << 30

func limits() {
	// A length field must not take the machine down with it.
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(64 << 20)
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	runtime.GOMAXPROCS(2)
}

// worker executes the runs [from,to) of a check. It reports every run it starts, so that the parent knows
// which one killed it.
func worker(sys *System, args []string) int {
	limits()
	prop := args[0]
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	from, _ := strconv.Atoi(args[2])
	to, _ := strconv.Atoi(args[3])
	known := loadKnown(prop)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	sum := &Summary{Decided: map[string]int{}, Fired: map[string]int{}, Ops: map[string]int{}}
	sigs, traces := map[uint64]bool{}, map[uint64]bool{}
	for i := from; i < to; i++ {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		p := sys.Gen(prop, RunSeed(seed, i))
		r := sys.Run(p, false)
		if r.Broken != "" {
			b, _ := json.Marshal(found{Run: i, Broken: r.Broken})
			fmt.Fprintf(out, "V %s\n", b)
			return 0
		}
		sum.Runs++
		sum.Steps += r.Steps
		sum.SimTime += r.SimTime
		sum.Solo += r.Solo
		sum.Switches += r.Switches
		sum.Crashes += r.Crashes
		sum.MaxAlloc = max(sum.MaxAlloc, r.MaxAlloc)
		dec := 0
		for k, v := range r.Decided {
			sum.Decided[k] += v
			dec += v
		}
		for k, v := range r.Fired {
			sum.Fired[k] += v
		}
		for k, v := range r.Ops {
			sum.Ops[k] += v
		}
		if dec > 0 && r.Steps > 0 {
			sigs[r.Sig] = true
		}
		if r.Switches > 0 {
			traces[r.Trace] = true
		}
		sum.Last, sum.Visible, sum.Outcome = i, r.Visible, r.Outcome
		if i == from {
			sum.Sample = engine.Describe(p)
		}
		if vs := known.filter(r.Violations); len(vs) > 0 {
			b, _ := json.Marshal(found{Run: i, V: vs})
			fmt.Fprintf(out, "V %s\n", b)
			break
		}
	}
	for k := range sigs {
		sum.Sigs = append(sum.Sigs, k)
	}
	for k := range traces {
		sum.Traces = append(sum.Traces, k)
	}
	sum.Sites, sum.Hit = engine.SiteHits()
	b, _ := json.Marshal(sum)
	fmt.Fprintf(out, "E %s\n", b)
	return 0
}

// Replay is a replay file.
type Replay struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	At       string `json:"at,omitempty"`
	Seed     uint64 `json:"verif_seed"`
	Run      int    `json:"run"`
	// Mode "plan": executing the plan after the prefix shows the violation. Mode "death": executing it kills
	// the process. Mode "history": the plan's results differ depending on whether the prefix ran before.
	Mode   string         `json:"mode"`
	Prefix []*engine.Plan `json:"prefix,omitempty"`
	Plan   *engine.Plan   `json:"plan"`
	Trace  []string       `json:"trace,omitempty"`
	Note   string         `json:"note,omitempty"`
	// Tries is how often a replay executes the plan before it gives up, if not once.
	Tries int `json:"tries,omitempty"`
}

// execFile executes the plans of a replay file in this process and prints the result of the last.
func execFile(sys *System, args []string) int {
	limits()
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(args) < 2 || args[1] != "alone" {
		for _, p := range rp.Prefix {
			sys.Run(p, false)
		}
	}
	r := sys.Run(rp.Plan, len(args) > 1 && args[len(args)-1] == "verbose")
	o, _ := json.Marshal(r)
	os.Stdout.Write(append(append([]byte("R "), o...), '\n'))
	return 0
}

// minimiser reads candidate plans from standard input, one JSON document per line, and answers each with
// the classes it violates.
func server(sys *System, args []string) int {
	limits()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return 0
		}
		var p engine.Plan
		if err := json.Unmarshal(line, &p); err != nil {
			return 2
		}
		r := sys.Run(&p, false)
		b, _ := json.Marshal(r.Violations)
		if r.Broken != "" {
			b = []byte("[]")
		}
		out.WriteString("R ")
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
