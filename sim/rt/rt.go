// Package rt is the simulation runtime that instrumented library code calls into.
//
// Every statement of the instrumented code calls Y(site). Inside a simulation run, exactly one task
// (a parked/released goroutine) runs at any time, and the run's plan alone decides at which statement
// control moves to which other task. Outside a run all hooks are inert.
package rt

import (
	"cmp"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"unsafe"
)

// Sentinel panics used by the simulator. They are recovered by the engine, never by library code.
type (
	// Hang is raised when a single operation exceeds its statement budget.
	Hang struct{ Steps int64 }
	// Crash is raised in the running task when the simulated machine dies.
	Crash struct{}
	// Killed is raised in every other task after a crash.
	Killed struct{}
	// Deadlock is raised when no task can make progress.
	Deadlock struct{}
)

// IsSentinel reports whether a recovered value belongs to the simulator.
func IsSentinel(v any) bool {
	switch v.(type) {
	case Hang, Crash, Killed, Deadlock:
		return true
	}
	return false
}

// Preempt says: when the given task is inside its Op-th operation and the trigger fires, run task To.
type Preempt struct {
	Task int `json:"task"`
	Op   int `json:"op"`
	// Kind "step": after N statements of this operation (0: before it starts).
	// Kind "fresh": at the Hit-th execution of the N-th distinct statement this operation reaches.
	Kind string `json:"kind"`
	N    int64  `json:"n"`
	Hit  int32  `json:"hit,omitempty"`
	To   int    `json:"to"`
}

// SiteNames is filled by the generated init of the instrumented package (index = site id).
var SiteNames []string

// Hits counts executions per site over the whole process.
var Hits []int64

// RegisterSites is called by instrumented packages with the names of their sites.
func RegisterSites(base int, names []string) {
	for len(SiteNames) < base+len(names) {
		SiteNames = append(SiteNames, "")
		Hits = append(Hits, 0)
	}
	copy(SiteNames[base:], names)
}

// Task is one simulated thread of control.
type Task struct {
	ID    int
	sim   *Sim
	wake  chan struct{}
	done  bool
	cond  func() bool // non-nil: blocked until true
	body  func()
	steps int64 // statements in the current operation
	ios   int64 // reads, writes and seeks in it
	next  int64 // step count at which slow() must run
	rnd   int64 // step count of the next drawn switch
	limit int64
	op    int
	pre   []Preempt // pending preemptions of the current operation
	// per-operation visit tracking
	track bool
	stamp []int32
	cnt   []int32
	ord   []int32
	cur   int32
	fresh int32
	// the map access the task is about to make, if it was stopped right before it
	pend   access
	parked int
}

// access is one use of a map.
type access struct {
	m     unsafe.Pointer
	write bool
	site  int32
}

// Sim is one simulated run.
type Sim struct {
	Tasks     []*Task
	Preempts  []Preempt
	MapSeed   uint64
	StepLimit int64
	mapCtr    uint64
	// EnvSeed decides the simulated clock and the simulated random numbers.
	EnvSeed uint64
	envCtr  uint64
	clock   int64
	// TrackAll records, for every operation, how many distinct statements it reached.
	TrackAll bool

	TotalSteps int64
	Switches   int
	SwitchLog  []string
	TraceHash  uint64
	dead       bool
	finished   chan struct{}
	// ChildPanic is set when a goroutine started by library code panicked.
	ChildPanic any

	// MapPark makes tasks wait right before they use a map another task uses too, if one of them writes.
	MapPark bool
	// Race describes the first two map accesses that were possible at the same time, one of them a write. The
	// real map implementation kills the process when it sees that.
	Race string
	maps map[unsafe.Pointer]*mapUse

	// SchedSeed, if set, draws switches between tasks once the code under test has started goroutines.
	SchedSeed uint64
	schedCtr  uint64
	wild      bool
	chans     map[unsafe.Pointer]*chanState
}

type mapUse struct {
	task  int // the only task so far, or -1
	wrote bool
}

var cur *Task
var active *Sim
var epoch uint64 = 1

// Epoch numbers the simulation runs of this process, starting at 1.
func Epoch() uint64 { return epoch }

// Current returns the running simulation, or nil.
func Current() *Sim { return active }

// CurTask returns the id of the running task, or -1.
func CurTask() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Dead reports whether the simulated machine has crashed.
func (s *Sim) Dead() bool { return s.dead }

// Run executes the given task bodies under the plan and returns when all have ended.
func (s *Sim) Run(bodies []func()) {
	if active != nil {
		panic("rt: nested simulation")
	}
	s.finished = make(chan struct{})
	s.TraceHash = 1469598103934665603
	if s.StepLimit == 0 {
		s.StepLimit = 1 << 40
	}
	for i, b := range bodies {
		s.Tasks = append(s.Tasks, &Task{ID: i, sim: s, wake: make(chan struct{}), body: b, limit: s.StepLimit, op: -1})
	}
	active = s
	epoch++
	for _, t := range s.Tasks {
		go t.main()
	}
	cur = s.Tasks[0]
	cur.wake <- struct{}{}
	<-s.finished
	active = nil
	cur = nil
}

func (t *Task) main() {
	<-t.wake
	defer t.end() // also if the task ends by runtime.Goexit
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Killed); !ok {
					t.sim.ChildPanic = r
				}
			}
		}()
		if t.sim.dead {
			panic(Killed{})
		}
		t.body()
	}()
}

func (t *Task) end() {
	t.done = true
	s := t.sim
	s.TotalSteps += t.steps
	n := s.pick(-1)
	if n == nil {
		for _, o := range s.Tasks {
			if !o.done {
				// Everyone left is blocked: wake one to die of deadlock.
				s.dead = true
				o.cond = nil
				cur = o
				o.wake <- struct{}{}
				return
			}
		}
		close(s.finished)
		return
	}
	cur = n
	n.wake <- struct{}{}
}

// Exit ends the running task and with it the whole simulated process: no other task runs on.
func Exit() {
	if cur != nil {
		cur.sim.dead = true
	}
	runtime.Goexit()
}

func (s *Sim) runnable(t *Task) bool {
	if t.done {
		return false
	}
	return s.dead || t.cond == nil || t.cond()
}

// pick returns the preferred task if runnable, else the lowest-numbered runnable one.
func (s *Sim) pick(pref int) *Task {
	if pref >= 0 && pref < len(s.Tasks) && s.runnable(s.Tasks[pref]) {
		return s.Tasks[pref]
	}
	for _, t := range s.Tasks {
		if s.runnable(t) {
			return t
		}
	}
	return nil
}

func (t *Task) switchTo(o *Task, why int32) {
	if o == t {
		return
	}
	s := t.sim
	s.Switches++
	for _, v := range []uint64{uint64(t.ID), uint64(uint32(why)), uint64(t.op), uint64(o.ID)} {
		s.TraceHash = (s.TraceHash ^ v) * 1099511628211
	}
	if len(s.SwitchLog) < 64 {
		name := "op-boundary"
		if why >= 0 && int(why) < len(SiteNames) {
			name = SiteNames[why]
		} else if why == -2 {
			name = "blocked"
		}
		s.SwitchLog = append(s.SwitchLog, fmt.Sprintf("task %d op %d step %d at %s -> task %d", t.ID, t.op, t.steps, name, o.ID))
	}
	cur = o
	o.wake <- struct{}{}
	<-t.wake
	if s.dead {
		panic(Killed{})
	}
}

// BeginOp tells the scheduler that the running task starts its op-th operation.
func BeginOp(op int) {
	t := cur
	if t == nil {
		return
	}
	t.sim.TotalSteps += t.steps
	t.op = op
	t.steps = 0
	t.ios = 0
	t.fresh = 0
	t.pre = t.pre[:0]
	t.track = false
	for _, p := range t.sim.Preempts {
		if p.Task == t.ID && p.Op == op {
			t.pre = append(t.pre, p)
			if p.Kind == "fresh" {
				t.track = true
			}
		}
	}
	if t.sim.TrackAll {
		t.track = true
	}
	if t.track {
		t.cur++
		if len(t.stamp) < len(SiteNames) {
			t.stamp = make([]int32, len(SiteNames))
			t.cnt = make([]int32, len(SiteNames))
			t.ord = make([]int32, len(SiteNames))
		}
	}
	t.arm()
	t.fire(-1)
}

// OpFresh returns the number of distinct statements the running task reached in its current operation
// (only if tracking is on).
func OpFresh() int64 {
	if cur == nil {
		return 0
	}
	return int64(cur.fresh)
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Env counts uses of the simulated clock and random source.
var EnvUses int64

// Rand returns 64 simulated random bits.
func Rand() uint64 {
	s := active
	if s == nil {
		return 4
	}
	EnvUses++
	s.envCtr++
	return mix(s.EnvSeed ^ mix(s.envCtr))
}

// Now returns the simulated wall clock in nanoseconds. It moves between calls, by seconds to days, and
// sometimes jumps back.
func Now() int64 {
	s := active
	if s == nil {
		return 1700000000 * 1e9
	}
	EnvUses++
	if s.clock == 0 {
		s.clock = 1500000000*1e9 + int64(mix(s.EnvSeed)%(400000000*1e9))
	}
	s.envCtr++
	j := mix(s.EnvSeed ^ mix(s.envCtr))
	d := int64(j>>8) % (int64(1e9) << (j % 20))
	if j>>60 == 0 {
		d = -d
	}
	s.clock += d
	return s.clock
}

// Advance moves the simulated clock.
func Advance(ns int64) {
	Now()
	if s := active; s != nil && ns > 0 {
		s.clock += ns
	}
}

// SimTime returns the simulated time span used by sleeping and clock reads.
func (s *Sim) SimTime() int64 { return s.clock }

// EndOp marks the end of an operation: statements outside operations are not counted against it.
func EndOp() {
	t := cur
	if t == nil {
		return
	}
	t.pre = t.pre[:0]
	t.track = false
	t.arm()
}

// OpSteps returns the number of statements the running task executed in its current operation.
func OpSteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.steps
}

func (t *Task) arm() {
	n := t.limit
	for _, p := range t.pre {
		if p.Kind == "step" && p.N < n {
			n = p.N
		}
	}
	if t.sim.wild {
		// The next drawn switch: soon, or later.
		s := t.sim
		s.schedCtr++
		r := mix(s.SchedSeed ^ mix(s.schedCtr))
		t.rnd = t.steps + 1 + int64(r>>8)%(int64(1)<<(r%12))
		n = min(n, t.rnd)
	}
	t.next = n
}

// roam performs the drawn switches.
func (t *Task) roam(site int32) {
	s := t.sim
	if !s.wild || t.steps < t.rnd {
		return
	}
	t.arm()
	var rs []*Task
	for _, o := range s.Tasks {
		if o != t && s.runnable(o) {
			rs = append(rs, o)
		}
	}
	if len(rs) > 0 {
		s.schedCtr++
		t.switchTo(rs[mix(s.SchedSeed^mix(s.schedCtr))%uint64(len(rs))], site)
	}
}

// fire performs all "step" preemptions that are due.
func (t *Task) fire(site int32) {
	for i := 0; i < len(t.pre); i++ {
		p := t.pre[i]
		if p.Kind == "step" && p.N <= t.steps {
			t.pre = append(t.pre[:i], t.pre[i+1:]...)
			t.arm()
			if o := t.sim.pick(p.To); o != nil {
				t.switchTo(o, site)
			}
			i = -1
		}
	}
}

// Y is the per-statement hook.
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	Hits[site]++
	if t.track {
		t.visit(site)
	}
	if t.steps >= t.next {
		t.slow(site)
	}
}

// ioLimit bounds the reads, writes and seeks of one operation.
const ioLimit = 50_000_000

// IO counts a read, write or seek, so that a loop in code without hooks (bufio, io) that gets nowhere is noticed.
func IO() {
	t := cur
	if t == nil {
		return
	}
	if t.ios++; t.ios >= ioLimit {
		panic(Hang{t.steps})
	}
}

func (t *Task) visit(site int32) {
	if t.stamp[site] != t.cur {
		t.stamp[site] = t.cur
		t.cnt[site] = 0
		t.fresh++
		t.ord[site] = t.fresh
	}
	t.cnt[site]++
	for i, p := range t.pre {
		if p.Kind == "fresh" && int32(p.N) == t.ord[site] && p.Hit == t.cnt[site] {
			t.pre = append(t.pre[:i], t.pre[i+1:]...)
			if o := t.sim.pick(p.To); o != nil {
				t.switchTo(o, site)
			}
			return
		}
	}
}

func (t *Task) slow(site int32) {
	if t.steps >= t.limit {
		panic(Hang{t.steps})
	}
	t.fire(site)
	t.roam(site)
}

// K stands before the read of key k of map m.
func K[M ~map[K]V, K comparable, V any](site int32, m M, k K) K {
	if cur != nil && len(cur.sim.Tasks) > 1 {
		cur.touch(site, mapPtr(m), false)
	}
	return k
}

// KW stands before the assignment or deletion of key k of map m.
func KW[M ~map[K]V, K comparable, V any](site int32, m M, k K) K {
	if cur != nil && len(cur.sim.Tasks) > 1 {
		cur.touch(site, mapPtr(m), true)
	}
	return k
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func (t *Task) touch(site int32, m unsafe.Pointer, write bool) {
	if m == nil {
		return
	}
	s := t.sim
	if s.dead {
		return
	}
	if write {
		t.conflict(m, true, "writes at "+SiteNames[site])
	} else {
		t.conflict(m, false, "reads at "+SiteNames[site])
	}
	t.pend = access{m, write, site}
	if s.MapPark {
		u := s.maps[m]
		if u == nil {
			if s.maps == nil {
				s.maps = map[unsafe.Pointer]*mapUse{}
			}
			u = &mapUse{task: t.ID}
			s.maps[m] = u
		}
		if u.task != t.ID {
			u.task = -1
		}
		if u.task < 0 && (write || u.wrote) && t.parked < 8 {
			for k := 1; k < len(s.Tasks); k++ {
				if o := s.Tasks[(t.ID+k)%len(s.Tasks)]; s.runnable(o) && o.pend.m != m {
					t.parked++
					t.switchTo(o, site)
					break
				}
			}
		}
		u.wrote = u.wrote || write
	}
	Y(site)
	t.pend = access{}
}

// conflict checks a map access against those the other tasks are about to make.
func (t *Task) conflict(m unsafe.Pointer, write bool, what string) {
	s := t.sim
	if m == nil || s.Race != "" || s.dead {
		return
	}
	for _, o := range s.Tasks {
		if o != t && !o.done && o.pend.m == m && (write || o.pend.write) {
			verb := "reads"
			if o.pend.write {
				verb = "writes"
			}
			s.Race = fmt.Sprintf("concurrent map access, for which the runtime ends the process: task %d %s, task %d %s at %s", t.ID, what, o.ID, verb, SiteNames[o.pend.site])
			return
		}
	}
}

// CrashNow kills the simulated machine from within the running task.
func CrashNow() {
	t := cur
	if t == nil {
		panic("rt: crash outside simulation")
	}
	t.sim.dead = true
	panic(Crash{})
}

// Block parks the running task until cond holds.
func Block(cond func() bool) {
	if cond() {
		return
	}
	t := cur
	if t == nil {
		panic(Deadlock{})
	}
	for !cond() {
		t.cond = cond
		o := t.sim.pick(-1)
		if o == nil {
			t.cond = nil
			panic(Deadlock{})
		}
		t.switchTo(o, -2)
		t.cond = nil
	}
}

// Go starts a library goroutine as a simulated task.
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	s := cur.sim
	t := &Task{ID: len(s.Tasks), sim: s, wake: make(chan struct{}), body: f, limit: s.StepLimit, op: -1}
	t.next = t.limit
	if s.wild || s.SchedSeed != 0 {
		t.next = 1 + int64(mix(s.SchedSeed^uint64(t.ID))%8)
		t.rnd = t.next
	}
	s.Tasks = append(s.Tasks, t)
	go t.main()
	if s.SchedSeed != 0 {
		s.wild = true
		cur.arm()
	}
}

// Yield lets another runnable task run (used by cooperative primitives).
func Yield() {
	t := cur
	if t == nil {
		return
	}
	n := len(t.sim.Tasks)
	for k := 1; k < n; k++ {
		o := t.sim.Tasks[(t.ID+k)%n]
		if t.sim.runnable(o) {
			t.switchTo(o, -2)
			return
		}
	}
}

// Ent is one entry of a simulated map iteration.
type Ent[K comparable, V any] struct {
	m map[K]V
	k K
}

// Live reports whether the entry still exists.
func (e Ent[K, V]) Live() bool { _, ok := e.m[e.k]; return ok }

// Key returns the key.
func (e Ent[K, V]) Key() K { return e.k }

// Val returns the current value.
func (e Ent[K, V]) Val() V { return e.m[e.k] }

// MapRanges counts simulated map iterations in this process.
var MapRanges int64

// Iter returns the entries of m in the order the simulated run dictates.
func Iter[M ~map[K]V, K comparable, V any](m M) []Ent[K, V] {
	if cur != nil && len(cur.sim.Tasks) > 1 {
		cur.conflict(mapPtr(m), false, "ranges over")
	}
	out := make([]Ent[K, V], 0, len(m))
	for k := range m {
		out = append(out, Ent[K, V]{m, k})
	}
	sortEnts(out)
	s := active
	if s != nil && s.MapSeed != 0 {
		MapRanges++
		s.mapCtr++
		x := s.MapSeed ^ s.mapCtr*0x9e3779b97f4a7c15
		for i := len(out) - 1; i > 0; i-- {
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			z ^= z >> 31
			j := int(z % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func sortEnts[K comparable, V any](out []Ent[K, V]) {
	if len(out) < 2 {
		return
	}
	switch reflect.TypeOf(&out[0].k).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(out, func(a, b Ent[K, V]) int {
			return cmp.Compare(reflect.ValueOf(a.k).Int(), reflect.ValueOf(b.k).Int())
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		slices.SortFunc(out, func(a, b Ent[K, V]) int {
			return cmp.Compare(reflect.ValueOf(a.k).Uint(), reflect.ValueOf(b.k).Uint())
		})
	case reflect.String:
		slices.SortFunc(out, func(a, b Ent[K, V]) int {
			return cmp.Compare(reflect.ValueOf(a.k).String(), reflect.ValueOf(b.k).String())
		})
	default:
		slices.SortFunc(out, func(a, b Ent[K, V]) int {
			return cmp.Compare(fmt.Sprintf("%#v", a.k), fmt.Sprintf("%#v", b.k))
		})
	}
}
