// Package simsync replaces package sync in instrumented code with cooperative equivalents driven by
// the simulation scheduler.
package simsync

import "verifsim/rt"

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex mirrors sync.Mutex.
//
// A lock taken in a simulated process that died is not held in the next one: ownership carries the
// number of the simulation run.
type Mutex struct{ held uint64 }

func (m *Mutex) busy() bool { return m.held != 0 && m.held == rt.Epoch() }

func (m *Mutex) Lock() {
	rt.Block(func() bool { return !m.busy() })
	m.held = rt.Epoch()
}
func (m *Mutex) TryLock() bool {
	if m.busy() {
		return false
	}
	m.held = rt.Epoch()
	return true
}
func (m *Mutex) Unlock() {
	if !m.busy() {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = 0
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	w  bool
	r  int
	ep uint64
}

// fresh forgets holders that died with an earlier simulated process.
func (m *RWMutex) fresh() {
	if m.ep != rt.Epoch() {
		m.ep, m.w, m.r = rt.Epoch(), false, 0
	}
}

func (m *RWMutex) Lock() {
	m.fresh()
	rt.Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	m.fresh()
	rt.Block(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker mirrors (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { rt.Block(func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Pool mirrors sync.Pool: it hands items back in LIFO order, which is legal and deterministic.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map mirrors sync.Map (insertion-ordered ranges).
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
