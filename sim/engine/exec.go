package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype"

	"verifsim/prng"
	"verifsim/rt"
	"verifsim/sfnt"
	"verifsim/simio"
	"verifsim/simos"
)

// Lin is the lineage of a font: the file it came from and the state-changing operations applied to it.
type Lin struct {
	parent *Lin
	blob   int
	op     Op
	key    string
	depth  int
}

func (l *Lin) with(op Op) *Lin {
	o := Op{K: op.K, N: op.N, G: op.G, T: op.T, S: op.S}
	b, _ := json.Marshal(o)
	return &Lin{parent: l, blob: l.blob, op: o, key: l.key + "/" + string(b), depth: l.depth + 1}
}

// has reports whether the lineage contains an operation of one of the kinds.
func (l *Lin) has(kinds ...string) bool {
	for ; l != nil; l = l.parent {
		for _, k := range kinds {
			if l.op.K == k {
				return true
			}
		}
	}
	return false
}

// reg is one live font of the simulated process.
type reg struct {
	id    int
	f     *unitype.Font
	lin   *Lin
	model *sfnt.Font // nil: the simulator takes no position on its content
	root  *sfnt.Font
	fresh bool // loaded from a file whose exact locations the model knows
	owner int  // task that alone may change it; -1 nobody
}

// blob is one interned byte string.
type blob struct {
	data   []byte
	model  *sfnt.Font
	fresh  bool
	parsed bool
	intact bool // a well-formed font as far as the simulator knows
}

// FileState is what the simulator remembers of one file around an operation.
type FileState struct {
	Inode  *simos.Inode
	Writes int
	Blob   int
}

// Event is the record of one executed operation.
type Event struct {
	Phase, Task, Idx int
	Op               Op
	Conc             bool
	Skipped          bool
	Err              error
	Panic            string
	Where            string
	Hang             bool
	Crashed          bool
	Fired            int // faults that fired inside the operation
	Steps            int64
	Fresh            int64
	Alloc            uint64
	Reg              *reg // argument register (state before is in Lin/Model)
	Lin              *Lin
	Model            *sfnt.Font
	FreshReg         bool
	Res              *reg // result register
	ResLin           *Lin
	ResModel         *sfnt.Font
	Same             bool // the result is the argument object itself
	Blob             int  // input content of load/valid, -1 none
	Out              []byte
	OutBlob          int
	Query            *query
	Obs              *Obs
	Before, After    map[string]FileState
	OpenBefore       int
	OpenAfter        int
	MustReport       int      // faults that hit it and that nothing done later can make up for
	Undeletable      int      // times it was refused to delete a file
	Creates          []string // files opened for writing
	creates0         int
	DiskEvents       int
	Reads, Seeks     int
	Shorts           int
}

func (e *Event) ok() bool {
	return !e.Skipped && e.Err == nil && e.Panic == "" && !e.Hang && !e.Crashed
}

func (e *Event) where() string {
	return fmt.Sprintf("phase %d task %d op %d (%s)", e.Phase, e.Task, e.Idx, opText(&e.Op))
}

func opText(o *Op) string {
	s := o.K
	switch o.K {
	case "load", "valid":
		s += " " + o.Via
		if o.Via == "file" {
			s += " " + o.File
		} else {
			s += fmt.Sprintf(" font %d", o.F)
		}
	case "first":
		s += fmt.Sprintf(" r%d n=%d", o.A, o.N)
	case "keep":
		s += fmt.Sprintf(" r%d %v", o.A, o.G)
	case "keepr":
		s += fmt.Sprintf(" r%d %q", o.A, string(o.S))
	case "prune":
		s += fmt.Sprintf(" r%d %v", o.A, o.T)
	case "writef":
		s += fmt.Sprintf(" r%d to %s", o.A, o.File)
	default:
		s += fmt.Sprintf(" r%d", o.A)
	}
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// Exec executes plans.
type Exec struct {
	P      *Plan
	Events []*Event
	blobs  []*blob
	byHash map[uint64]int
	fonts  []int
	regs   map[int]*reg
	nreg   int
	disk   *simos.Disk
	phase  int
	conc   bool
	// Statistics.
	Steps      int64
	Solo       int64
	Switches   int
	Trace      uint64
	SwitchLog  []string
	Fired      map[string]int
	Crashes    int
	SimTime    int64
	Deadlock   bool
	Fatal      string                 // a goroutine of the library died, or everybody is blocked
	Broken     string                 // the simulator itself is at fault
	PhaseFiles []map[string]FileState // contents at the start of each phase
	PhaseCrash []bool
	cache      map[string]*soloRes
	measure    bool
	probe      bool
}

type soloRes struct {
	font  *unitype.Font
	out   []byte
	obs   *Obs
	err   error
	panic string
	hang  bool
}

// Execute runs the plan.
func Execute(p *Plan) *Exec { return execute(p, false, false) }

// Probe runs the plan gathering positions for faults and preemptions.
func Probe(p *Plan) *Exec { return execute(p, true, false) }

func setLog(n int) {
	lv := []logrus.Level{logrus.PanicLevel, logrus.ErrorLevel, logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel}
	logrus.SetLevel(lv[n%len(lv)])
}

// newExec builds the fonts and the disk of a plan.
func newExec(p *Plan, probe bool) *Exec {
	x := &Exec{P: p, byHash: map[uint64]int{}, regs: map[int]*reg{}, Fired: map[string]int{}, cache: map[string]*soloRes{}, probe: probe}
	x.measure = p.Prop == "C07"
	for i := range p.Fonts {
		id := x.intern(p.Fonts[i].Bytes())
		if p.Fonts[i].Raw == nil && len(p.Fonts[i].Muts) == 0 {
			x.blobs[id].intact = true
		}
		x.fonts = append(x.fonts, id)
	}
	d := simos.NewDisk()
	d.KeepLog = true
	d.Epoch = 1000000000 + int64(prng.Mix(p.EnvSeed, 9)%700000000)
	x.disk = d
	for _, f := range p.Files {
		if f.Font >= 0 && f.Font < len(x.fonts) {
			d.Put(f.Name, x.blobs[x.fonts[f.Font]].data)
		} else {
			d.Put(f.Name, prng.New(f.Seed).Bytes(f.Len))
		}
	}
	if p.Chunk != 0 {
		r := prng.New(p.Chunk)
		d.ReadChunk = func(n int) int {
			if r.P(1, 3) {
				return 1 + r.Log(n)
			}
			return n
		}
	}
	simos.D = d
	return x
}

func execute(p *Plan, probe, again bool) *Exec {
	x := newExec(p, probe)
	d := x.disk
	setLog(p.Log)
	defer func() {
		setLog(0)
		for k, v := range d.Fired {
			x.Fired[k] += v
		}
	}()
	if p.Cold && !again {
		rt.Fresh()
	}
	nphase := 1 + len(p.Post)
	for ph := 0; ph < nphase; ph++ {
		x.phase = ph
		ops := p.Pre
		if ph > 0 {
			ops = p.Post[ph-1]
		}
		x.PhaseFiles = append(x.PhaseFiles, x.files())
		d.Events, d.CrashAt, d.TearWrite, d.Crashed = 0, 0, 0, false
		if ph < len(p.Crash) {
			d.CrashAt, d.TearWrite = p.Crash[ph].At, p.Crash[ph].Tear
		}
		dead := x.sim([][]Op{ops})
		if !dead && ph == 0 && len(p.Tasks) > 0 {
			x.assignOwners(p.Tasks)
			x.conc = true
			dead = x.sim(p.Tasks)
			x.conc = false
		}
		x.PhaseCrash = append(x.PhaseCrash, dead)
		if ph+1 < nphase {
			// The process is gone: only the disk survives.
			x.regs = map[int]*reg{}
			rt.Fresh()
			if ph < len(p.Crash) && p.Crash[ph].Power {
				r := prng.New(p.Crash[ph].Seed)
				d.PowerLoss(r.N)
			} else {
				d.ProcessCrash()
			}
		}
	}
	return x
}

func (x *Exec) assignOwners(tasks [][]Op) {
	users := map[*reg]map[int]bool{}
	for t, ops := range tasks {
		for i := range ops {
			if g := x.regs[ops[i].A]; g != nil && usesA(ops[i].K) {
				if users[g] == nil {
					users[g] = map[int]bool{}
				}
				users[g][t] = true
			}
		}
	}
	for g, ts := range users {
		g.owner = -1
		if len(ts) == 1 {
			for t := range ts {
				g.owner = t
			}
		}
	}
}

func usesA(k string) bool {
	switch k {
	case "q", "first", "keep", "keepr", "prune", "opt", "write", "writef", "reload":
		return true
	}
	return false
}

// sim runs the given op lists as concurrent tasks of one simulation; true if the machine crashed.
func (x *Exec) sim(tasks [][]Op) bool {
	s := &rt.Sim{MapSeed: x.P.MapSeed, EnvSeed: prng.Mix(x.P.EnvSeed, uint64(x.phase), 5), SchedSeed: prng.Mix(x.P.EnvSeed, uint64(x.phase), 7), StepLimit: x.limit(), TrackAll: x.probe && len(tasks) > 1}
	if x.conc {
		s.Preempts, s.MapPark = x.P.Preempts, x.P.MapPark
	}
	var bodies []func()
	for t := range tasks {
		t, ops := t, tasks[t]
		bodies = append(bodies, func() {
			for i := range ops {
				x.op(t, i, ops[i])
			}
		})
	}
	s.Run(bodies)
	x.Steps += s.TotalSteps
	x.Switches += s.Switches
	x.SimTime += s.SimTime()
	x.Trace = x.Trace*1099511628211 ^ s.TraceHash
	x.SwitchLog = append(x.SwitchLog, s.SwitchLog...)
	if s.Race != "" {
		x.Fatal = s.Race
	}
	if s.ChildPanic != nil {
		switch s.ChildPanic.(type) {
		case rt.Crash:
		default:
			x.Fatal = fmt.Sprintf("a goroutine started by the library died: %v", s.ChildPanic)
			if _, ok := s.ChildPanic.(rt.Deadlock); ok {
				x.Fatal = "deadlock"
			}
		}
	}
	if x.disk.Crashed {
		x.Crashes++
	}
	return x.disk.Crashed
}

func (x *Exec) limit() int64 {
	if x.P.StepLimit > 0 {
		return x.P.StepLimit
	}
	return 400e6
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (x *Exec) intern(b []byte) int {
	h := hashBytes(b)
	for {
		id, ok := x.byHash[h]
		if !ok {
			break
		}
		if bytes.Equal(x.blobs[id].data, b) {
			return id
		}
		h++
	}
	x.blobs = append(x.blobs, &blob{data: append([]byte{}, b...)})
	x.byHash[h] = len(x.blobs) - 1
	return len(x.blobs) - 1
}

// modelOf returns the reference model of an intact font file.
func (x *Exec) modelOf(id int) (*sfnt.Font, bool) {
	b := x.blobs[id]
	if b.intact && b.model == nil && !b.parsed {
		b.parsed = true
		m, problems := sfnt.Parse(b.data)
		if len(problems) == 0 {
			b.model, b.fresh = m, true
		} else {
			x.Broken = "simulator: generated font is not well-formed: " + problems[0]
		}
	}
	return b.model, b.fresh
}

func (x *Exec) files() map[string]FileState {
	out := map[string]FileState{}
	for _, n := range x.disk.Names() {
		in := x.disk.Inode(n)
		out[n] = FileState{in, in.Writes, x.intern(in.Data)}
	}
	return out
}

func (x *Exec) newReg(n int, f *unitype.Font, lin *Lin, m, root *sfnt.Font, fresh bool, task int) *reg {
	x.nreg++
	g := &reg{id: x.nreg, f: f, lin: lin, model: m, root: root, fresh: fresh, owner: task}
	x.regs[n] = g
	return g
}

func hasFile(k, via string) bool { return k == "writef" || via == "file" }

// op executes one operation as part of the running task.
func (x *Exec) op(task, idx int, op Op) {
	ev := &Event{Phase: x.phase, Task: task, Idx: idx, Conc: x.conc, Op: op, Blob: -1, OutBlob: -1}
	x.Events = append(x.Events, ev)
	rt.BeginOp(idx)
	if usesA(op.K) {
		g := x.regs[op.A]
		if g == nil || g.f == nil {
			ev.Skipped = true
			rt.EndOp()
			return
		}
		if (op.K == "prune" || op.K == "opt") && x.conc && g.owner != task {
			ev.Skipped = true
			rt.EndOp()
			return
		}
		ev.Reg, ev.Lin, ev.Model, ev.FreshReg = g, g.lin, g.model, g.fresh
	}
	d := x.disk
	file := hasFile(op.K, op.Via)
	scope := task + 1
	if file {
		ev.Before = x.files()
		ev.OpenBefore = len(d.Open)
		ev.creates0 = len(d.WriteOpens)
		d.Scope(task, scope, op.DF)
	}
	ev0 := d.Events
	var ms runtime.MemStats
	if x.measure {
		runtime.ReadMemStats(&ms)
		ev.Alloc = ms.TotalAlloc
	}
	end := func() {
		ev.Steps = rt.OpSteps()
		ev.Fresh = rt.OpFresh()
		ev.DiskEvents = d.Events - ev0
		if x.measure {
			runtime.ReadMemStats(&ms)
			ev.Alloc = ms.TotalAlloc - ev.Alloc
		}
		if file {
			for k, n := range d.EndScope(task, scope) {
				ev.Fired += n
				switch k {
				case "sync", "close":
					ev.MustReport += n
				case "remove":
					ev.Undeletable += n
				}
			}
			ev.After = x.files()
			ev.OpenAfter = len(d.Open)
			ev.Creates = append([]string{}, d.WriteOpens[ev.creates0:]...)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case rt.Hang:
				ev.Hang = true
			case rt.Crash, rt.Killed:
				ev.Crashed = true
				end()
				panic(r)
			case rt.Deadlock:
				ev.Panic = "deadlock"
			case simos.ExitCode:
				ev.Panic = fmt.Sprintf("process exit: %v", r)
			default:
				ev.Panic = fmt.Sprint(r)
				ev.Where = panicSite()
			}
			end()
			rt.EndOp()
		}
	}()
	x.body(ev, task)
	end()
	rt.EndOp()
}

// panicSite names the library function a panic came from.
func panicSite() string {
	var pcs [64]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "unidoc/unitype") {
			s := f.Function
			return s[strings.LastIndex(s, "/")+1:]
		}
		if !more {
			return ""
		}
	}
}

func scramble(b []byte) {
	for i := range b {
		b[i] = 0xA5 ^ byte(i)
	}
}

func (x *Exec) body(ev *Event, task int) {
	op := ev.Op
	switch op.K {
	case "load":
		var f *unitype.Font
		var err error
		switch op.Via {
		case "file":
			if d, ok := x.disk.Get(op.File); ok {
				ev.Blob = x.intern(d)
			}
			f, err = unitype.ParseFile(op.File)
		default:
			if op.F >= len(x.fonts) {
				ev.Skipped = true
				return
			}
			ev.Blob = x.fonts[op.F]
			cp := append([]byte{}, x.blobs[ev.Blob].data...)
			if op.Via == "stream" {
				src := simio.NewSource(cp, op.Src)
				defer func() { x.countSrc(ev, src) }()
				f, err = unitype.Parse(src)
				src.Poison()
			} else {
				f, err = unitype.Parse(bytes.NewReader(cp))
			}
			scramble(cp)
		}
		ev.Err = err
		if err != nil {
			delete(x.regs, op.R)
			return
		}
		x.setLoaded(ev, f, task)
	case "valid":
		if op.Via == "file" {
			if d, ok := x.disk.Get(op.File); ok {
				ev.Blob = x.intern(d)
			}
			ev.Err = unitype.ValidateFile(op.File)
			return
		}
		if op.F >= len(x.fonts) {
			ev.Skipped = true
			return
		}
		ev.Blob = x.fonts[op.F]
		cp := append([]byte{}, x.blobs[ev.Blob].data...)
		ev.Err = unitype.ValidateBytes(cp)
		if !bytes.Equal(cp, x.blobs[ev.Blob].data) {
			ev.Panic = "validation changed the caller's bytes"
		}
	case "q":
		ev.Query = makeQuery(op.Q, ev.Reg.root)
		ev.Obs = ev.Query.ask(ev.Reg.f)
	case "first", "keep", "keepr", "reload":
		f, err := x.apply(ev.Reg.f, &op, ev)
		ev.Err = err
		if err != nil {
			delete(x.regs, op.R)
			return
		}
		if f == ev.Reg.f {
			ev.Same = true
			x.regs[op.R] = ev.Reg
			ev.Res, ev.ResLin, ev.ResModel = ev.Reg, ev.Reg.lin, ev.Reg.model
			return
		}
		m := applyModel(ev.Model, &op)
		g := x.newReg(op.R, f, ev.Lin.with(op), m, ev.Reg.root, false, task)
		ev.Res, ev.ResLin, ev.ResModel = g, g.lin, g.model
	case "prune", "opt":
		_, err := x.apply(ev.Reg.f, &op, ev)
		ev.Err = err
		g := ev.Reg
		g.lin = g.lin.with(op)
		if g.model != nil {
			g.model = applyModel(g.model, &op)
		}
		ev.ResLin, ev.ResModel = g.lin, g.model
	case "write":
		s := simio.NewSink(op.Sink)
		defer func() {
			ev.Out = s.Data
			ev.Fired += s.Fired
			if op.Sink != nil && op.Sink.Kind == "late" {
				ev.MustReport += s.Fired
			}
			if s.Fired > 0 && op.Sink != nil {
				x.Fired["sink-"+op.Sink.Kind] += s.Fired
			}
		}()
		ev.Err = ev.Reg.f.Write(s)
	case "writef":
		ev.Err = ev.Reg.f.WriteFile(op.File)
		if ev.Err == nil {
			if d, ok := x.disk.Get(op.File); ok {
				ev.Out = append([]byte{}, d...)
				x.noteWritten(ev)
			}
		}
	case "restart":
		x.regs = map[int]*reg{}
		x.disk.ProcessCrash()
		x.Fired["restart"]++
	case "powerloss":
		x.regs = map[int]*reg{}
		r := prng.New(op.Q)
		x.disk.PowerLoss(r.N)
	case "corrupt":
		if d, ok := x.disk.Get(op.File); ok {
			x.disk.Put(op.File, ApplyMuts(append([]byte{}, d...), op.Muts))
			x.Fired["corrupt"]++
		}
	case "drop":
		delete(x.regs, op.A)
	default:
		panic("engine: unknown operation " + op.K)
	}
}

func (x *Exec) countSrc(ev *Event, src *simio.Source) {
	ev.Fired += src.Fired
	ev.Reads, ev.Seeks, ev.Shorts = src.Reads, src.Seeks, src.Shorts
	if src.Shorts > 0 {
		x.Fired["short-read"] += src.Shorts
	}
	if src.Fired > 0 && ev.Op.Src != nil {
		for _, f := range ev.Op.Src.Faults {
			x.Fired["source-"+f.Kind]++
		}
	}
}

func (x *Exec) setLoaded(ev *Event, f *unitype.Font, task int) {
	lin := &Lin{blob: ev.Blob, key: fmt.Sprint("b", ev.Blob)}
	var m *sfnt.Font
	fresh := false
	if ev.Blob >= 0 {
		m, fresh = x.modelOf(ev.Blob)
	}
	g := x.newReg(ev.Op.R, f, lin, m, m, fresh, task)
	ev.Res, ev.ResLin, ev.ResModel = g, lin, m
}

// noteWritten remembers what a successfully written file should contain.
func (x *Exec) noteWritten(ev *Event) {
	id := x.intern(ev.Out)
	ev.OutBlob = id
	b := x.blobs[id]
	if b.model == nil && ev.Model != nil {
		b.model, b.fresh, b.parsed = ev.Model.Written(), false, true
	}
}

// apply performs a state operation on a real font.
func (x *Exec) apply(f *unitype.Font, op *Op, ev *Event) (*unitype.Font, error) {
	switch op.K {
	case "first":
		return f.SubsetFirst(op.N)
	case "keep":
		var gs []unitype.GlyphIndex
		for _, g := range op.G {
			gs = append(gs, unitype.GlyphIndex(g))
		}
		r, err := f.SubsetKeepIndices(gs)
		for i := range gs {
			gs[i] = unitype.GlyphIndex(i)
		}
		return r, err
	case "keepr":
		rs := append([]rune(nil), op.S...)
		r, err := f.SubsetKeepRunes(rs)
		for i := range rs {
			rs[i] = 'x'
		}
		return r, err
	case "prune":
		ts := append([]string(nil), op.T...)
		return f, f.PruneTables(ts...)
	case "opt":
		return f, f.Optimize()
	case "reload":
		var b bytes.Buffer
		if err := f.Write(&b); err != nil {
			return nil, fmt.Errorf("write: %w", err)
		}
		out := b.Bytes()
		if ev != nil {
			ev.Out = append([]byte{}, out...)
		}
		var src *simio.SrcSpec
		if ev != nil {
			src = ev.Op.Src
		}
		s := simio.NewSource(out, src)
		g, err := unitype.Parse(s)
		s.Poison()
		if ev != nil {
			x.countSrc(ev, s)
		}
		scramble(out)
		if err != nil {
			return nil, fmt.Errorf("loading the written bytes: %w", err)
		}
		return g, nil
	}
	panic("engine: " + op.K + " is not a state operation")
}

// applyModel is the reference effect of a state operation.
func applyModel(m *sfnt.Font, op *Op) *sfnt.Font {
	if m == nil {
		return nil
	}
	switch op.K {
	case "first":
		if op.N < 0 {
			return nil
		}
		return m.First(op.N)
	case "keep":
		return m.Keep(op.G)
	case "keepr":
		maps, exact := m.LookupMaps()
		if !exact {
			return nil
		}
		var gs []int
		for _, r := range op.S {
			gs = append(gs, int(m.Lookup(maps, r)))
		}
		return m.Keep(gs)
	case "prune":
		return m.Prune(op.T)
	case "opt":
		return m.Optimized()
	case "reload":
		return m.Written()
	}
	return m
}

// solo runs fn in a simulation of its own: a process that has just started, no other activity, no faults,
// default map order, no logging.
func (x *Exec) solo(key string, fn func() *soloRes) *soloRes {
	if r, ok := x.cache[key]; ok {
		return r
	}
	setLog(0)
	x.Solo++
	s := &rt.Sim{EnvSeed: prng.Mix(x.P.EnvSeed, 99), StepLimit: x.limit()}
	defer rt.Fresh()()
	var res *soloRes
	s.Run([]func(){func() {
		rt.BeginOp(0)
		defer func() {
			if r := recover(); r != nil {
				if res == nil {
					res = &soloRes{}
				}
				if _, ok := r.(rt.Hang); ok {
					res.hang = true
				} else {
					res.panic = fmt.Sprint(r)
				}
			}
			rt.EndOp()
		}()
		res = fn()
	}})
	x.Steps += s.TotalSteps
	x.cache[key] = res
	return res
}

// build reconstructs a font from its lineage.
func (x *Exec) build(l *Lin) (*unitype.Font, error) {
	if l.parent == nil {
		return unitype.Parse(bytes.NewReader(append([]byte{}, x.blobs[l.blob].data...)))
	}
	f, err := x.build(l.parent)
	if err != nil {
		return nil, err
	}
	return x.apply(f, &l.op, nil)
}

// soloWrite is what writing a font of this lineage gives when nothing else ever happened.
func (x *Exec) soloWrite(l *Lin) *soloRes {
	return x.solo("w:"+l.key, func() *soloRes {
		f, err := x.build(l)
		if err != nil {
			return &soloRes{err: err}
		}
		var b bytes.Buffer
		err = f.Write(&b)
		return &soloRes{out: b.Bytes(), err: err}
	})
}

// soloState tells whether a font of this lineage can be made at all.
func (x *Exec) soloState(l *Lin) *soloRes {
	return x.solo("s:"+l.key, func() *soloRes {
		_, err := x.build(l)
		return &soloRes{err: err}
	})
}

// soloQuery is the answer to a query when nothing else ever happened.
func (x *Exec) soloQuery(l *Lin, q *query, seed uint64, root *sfnt.Font) *soloRes {
	return x.solo(fmt.Sprintf("q%x:%v:%x:%s", seed, root != nil, q.hash(), l.key), func() *soloRes {
		f, err := x.build(l)
		if err != nil {
			return &soloRes{err: err}
		}
		return &soloRes{obs: q.ask(f)}
	})
}

// soloValid is the undisturbed verdict on a byte string.
func (x *Exec) soloValid(id int) *soloRes {
	return x.solo(fmt.Sprint("v:", id), func() *soloRes {
		return &soloRes{err: unitype.ValidateBytes(append([]byte{}, x.blobs[id].data...))}
	})
}

// OutcomeHash digests everything the operations returned.
func (x *Exec) OutcomeHash() uint64 {
	h := fnv.New64a()
	for _, e := range x.Events {
		fmt.Fprintf(h, "%d/%d/%d %s skip=%v err=%v panic=%q hang=%v crash=%v out=%x steps=%d;", e.Phase, e.Task, e.Idx, e.Op.K, e.Skipped, e.Err != nil, e.Panic, e.Hang, e.Crashed, hashBytes(e.Out), e.Steps)
		if e.Obs != nil {
			fmt.Fprintf(h, "%x;", e.Obs.Hash())
		}
	}
	for _, n := range x.disk.Names() {
		b, _ := x.disk.Get(n)
		fmt.Fprintf(h, "%s=%x;", n, hashBytes(b))
	}
	return h.Sum64()
}

// ResultHash is OutcomeHash without step counts: what a caller can see.
func (x *Exec) ResultHash() uint64 {
	h := fnv.New64a()
	for _, e := range x.Events {
		fmt.Fprintf(h, "%d/%d/%d %s skip=%v err=%v panic=%q hang=%v out=%x;", e.Phase, e.Task, e.Idx, e.Op.K, e.Skipped, e.Err != nil, e.Panic, e.Hang, hashBytes(e.Out))
		if e.Obs != nil {
			fmt.Fprintf(h, "%x;", e.Obs.Hash())
		}
	}
	return h.Sum64()
}

func sortedNames(m map[string]FileState) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
