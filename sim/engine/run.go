package engine

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"verifsim/rt"
)

// Result is everything the driver needs to know about one executed plan.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Broken     string         `json:"broken,omitempty"`
	Decided    map[string]int `json:"decided,omitempty"`
	Fired      map[string]int `json:"fired,omitempty"`
	Ops        map[string]int `json:"ops,omitempty"`
	Steps      int64          `json:"steps"`
	SimTime    int64          `json:"simTime,omitempty"`
	Solo       int64          `json:"solo"`
	Switches   int            `json:"switches,omitempty"`
	Crashes    int            `json:"crashes,omitempty"`
	MaxAlloc   uint64         `json:"maxAlloc,omitempty"`
	Sig        uint64         `json:"sig"`               // path taken: operations, outcomes and executed statements
	Trace      uint64         `json:"trace"`             // order of task switches
	Outcome    uint64         `json:"outcome"`           // everything, including statement counts
	Visible    uint64         `json:"visible"`           // what a caller can see
	Printed    uint64         `json:"printed,omitempty"` // exit status and standard output of a command
	Log        []string       `json:"log,omitempty"`
}

// RunPlan executes and judges a plan.
func RunPlan(p *Plan, verbose bool) *Result {
	x := Execute(p)
	vs, dec := Check(x)
	r := &Result{Violations: vs, Broken: x.Broken, Decided: dec, Fired: x.Fired, Steps: x.Steps, Solo: x.Solo, SimTime: x.SimTime, Switches: x.Switches, Crashes: x.Crashes, Trace: x.Trace, Outcome: x.OutcomeHash(), Visible: x.ResultHash(), Ops: map[string]int{}}
	h := fnv.New64a()
	for _, e := range x.Events {
		k := e.Op.K
		switch {
		case e.Skipped:
			k += " (skipped)"
		case e.Err != nil:
			k += " (error)"
		}
		r.Ops[k]++
		r.MaxAlloc = max(r.MaxAlloc, e.Alloc)
		fmt.Fprintf(h, "%s %d %d;", k, e.Steps, e.Fired)
	}
	r.Sig = h.Sum64() ^ x.Trace
	if p.Again && len(vs) == 0 {
		y := execute(p, false, true)
		if a, b := x.ResultHash(), y.ResultHash(); a != b {
			r.Violations = append(r.Violations, Violation{Class: "again", Msg: "running the same history a second time in the same process gives other results: " + diffEvents(x, y)})
		} else {
			r.Decided["histories repeated"]++
		}
		r.Steps += y.Steps
	}
	if verbose {
		r.Log = Describe(p)
		for _, e := range x.Events {
			r.Log = append(r.Log, "-> "+e.where()+": "+outcome(e))
		}
		for _, s := range x.SwitchLog {
			r.Log = append(r.Log, "switch: "+s)
		}
		for i, s := range x.disk.Log {
			if i > 200 {
				break
			}
			r.Log = append(r.Log, "disk: "+s)
		}
		var ks []string
		for k, n := range x.Fired {
			ks = append(ks, fmt.Sprintf("fired: %s x%d", k, n))
		}
		sort.Strings(ks)
		r.Log = append(r.Log, ks...)
	}
	return r
}

func diffEvents(x, y *Exec) string {
	for i, e := range x.Events {
		if i >= len(y.Events) {
			break
		}
		if a, b := outcome(e), outcome(y.Events[i]); a != b {
			return fmt.Sprintf("%s: %s, then %s", e.where(), a, b)
		}
	}
	return "other events"
}

func outcome(e *Event) string {
	switch {
	case e.Skipped:
		return "skipped"
	case e.Crashed:
		return "the machine crashed"
	case e.Hang:
		return "did not finish"
	case e.Panic != "":
		return "panic: " + e.Panic
	}
	s := "ok"
	if e.Err != nil {
		s = "error: " + e.Err.Error()
	}
	if e.Out != nil {
		s += fmt.Sprintf(", %d bytes (%x)", len(e.Out), hashBytes(e.Out))
	}
	if e.Obs != nil {
		s += fmt.Sprintf(", answers %x", e.Obs.Hash())
	}
	if e.Fired > 0 {
		s += fmt.Sprintf(", %d faults fired", e.Fired)
	}
	return s
}

// Describe renders a plan for people.
func Describe(p *Plan) []string {
	var out []string
	for i := range p.Fonts {
		f := &p.Fonts[i]
		s := fmt.Sprintf("font %d: %s", i, f.Spec)
		if f.Raw != nil {
			s = fmt.Sprintf("font %d: %d raw bytes", i, len(f.Raw))
		}
		for _, m := range f.Muts {
			s += fmt.Sprintf(" %s(%s off=%d len=%d v=%#x f=%d)", m.K, m.T, m.Off, m.Len, m.V, m.F)
		}
		out = append(out, s)
	}
	text := func(o *Op) string {
		s := opText(o)
		if o.Src != nil {
			s += fmt.Sprintf(" delivery=%s", o.Src.Policy)
			for _, f := range o.Src.Faults {
				s += fmt.Sprintf(" fault=%+v", f)
			}
		}
		if o.Sink != nil {
			s += fmt.Sprintf(" sink=%+v", *o.Sink)
		}
		for _, f := range o.DF {
			s += fmt.Sprintf(" disk=%+v", f)
		}
		return s
	}
	list := func(title string, ops []Op) {
		var ss []string
		for i := range ops {
			ss = append(ss, text(&ops[i]))
		}
		out = append(out, title+": "+strings.Join(ss, "; "))
	}
	if p.Cold {
		out = append(out, "the process has just started")
	}
	list("history", p.Pre)
	for i := range p.Tasks {
		list(fmt.Sprintf("task %d", i), p.Tasks[i])
	}
	for i := range p.Preempts {
		out = append(out, fmt.Sprintf("preempt %+v", p.Preempts[i]))
	}
	if p.MapPark {
		out = append(out, "tasks stop before conflicting uses of a shared map")
	}
	for i := range p.Post {
		if i < len(p.Crash) {
			out = append(out, fmt.Sprintf("crash %+v", p.Crash[i]))
		}
		list("after restart", p.Post[i])
	}
	if p.CLI != nil {
		out = append(out, fmt.Sprintf("command line: %q faults %+v", p.CLI.Args, p.CLI.DF))
	}
	return out
}

// SiteHits returns the number of instrumented statements and which were executed in this process.
func SiteHits() (total int, hit []int) {
	for i, n := range rt.Hits {
		if n > 0 {
			hit = append(hit, i)
		}
	}
	return len(rt.SiteNames), hit
}
