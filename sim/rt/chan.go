package rt

import (
	"fmt"
	"unsafe"
)

// Channels. Only one task runs at a time, so a real channel operation that has to wait would stop the
// simulation: buffered channels are polled, unbuffered ones are a meeting of two tasks kept here.

type waiter struct {
	done   bool
	idx    int
	v      any
	ok     bool
	closed bool
}

type slot struct {
	w   *waiter
	idx int
	v   any
}

type chanState struct {
	send, recv []*slot
	closed     bool
}

func (q *chanState) prune() {
	for _, l := range []*[]*slot{&q.send, &q.recv} {
		k := (*l)[:0]
		for _, s := range *l {
			if !s.w.done {
				k = append(k, s)
			}
		}
		*l = k
	}
}

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (s *Sim) channel(p unsafe.Pointer) *chanState {
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*chanState{}
	}
	q := s.chans[p]
	if q == nil {
		q = &chanState{}
		s.chans[p] = q
	}
	q.prune()
	return q
}

// Case is one case of a select.
type Case struct {
	p     unsafe.Pointer
	n     int // capacity
	send  bool
	v     any
	ready func() bool
	// try attempts the operation on a buffered or closed channel without waiting.
	try func() (any, bool, bool)
}

// RecvCase is the case of receiving from c.
func RecvCase[T any](c <-chan T) Case {
	return Case{p: chanPtr(c), n: cap(c), try: func() (any, bool, bool) {
		select {
		case v, ok := <-c:
			return v, ok, true
		default:
			return nil, false, false
		}
	}, ready: func() bool { return len(c) > 0 }}
}

// SendCase is the case of sending to c.
func SendCase[T any](c chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{p: chanPtr(c), n: cap(c), send: true, v: v, try: func() (any, bool, bool) {
			select {
			case c <- v:
				return nil, false, true
			default:
				return nil, false, false
			}
		}, ready: func() bool { return len(c) < cap(c) }}
	}
}

// Selected is the outcome of a select.
type Selected struct {
	Idx int
	v   any
	ok  bool
}

// Got is the value received by a select.
func Got[T any](c <-chan T, s Selected) T {
	v, _ := s.v.(T)
	return v
}

// Got2 is the value received by a select and whether the channel was open.
func Got2[T any](c <-chan T, s Selected) (T, bool) {
	v, _ := s.v.(T)
	return v, s.ok
}

// Select performs a select statement; without simulation it runs the real one.
func Select(def bool, cases ...Case) Selected {
	t := cur
	if t == nil {
		return realSelect(def, cases)
	}
	s := t.sim
	attempt := func() (Selected, bool) {
		start := 0
		if n := len(cases); n > 1 {
			start = int(Rand() % uint64(n))
		}
		for k := range cases {
			i := (start + k) % len(cases)
			c := &cases[i]
			if c.p == nil {
				continue
			}
			q := s.channel(c.p)
			if c.send && q.closed {
				panic(fmt.Errorf("send on closed channel"))
			}
			if c.send && len(q.recv) > 0 && c.n == 0 {
				r := q.recv[0]
				r.w.done, r.w.idx, r.w.v, r.w.ok = true, r.idx, c.v, true
				return Selected{Idx: i}, true
			}
			if !c.send && len(q.send) > 0 && c.n == 0 {
				o := q.send[0]
				o.w.done, o.w.idx = true, o.idx
				return Selected{i, o.v, true}, true
			}
			if v, ok, did := c.try(); did {
				return Selected{i, v, ok}, true
			}
		}
		return Selected{}, false
	}
	for {
		if r, ok := attempt(); ok {
			return r
		}
		if def {
			return Selected{Idx: -1}
		}
		w := &waiter{}
		var qs []*chanState
		for i := range cases {
			c := &cases[i]
			if c.p == nil {
				continue
			}
			q := s.channel(c.p)
			if c.n == 0 {
				if c.send {
					q.send = append(q.send, &slot{w, i, c.v})
				} else {
					q.recv = append(q.recv, &slot{w, i, nil})
				}
			}
			qs = append(qs, q)
		}
		Block(func() bool {
			if w.done {
				return true
			}
			for _, q := range qs {
				if q.closed {
					return true
				}
			}
			for i := range cases {
				if c := &cases[i]; c.p != nil && c.n > 0 && c.ready() {
					return true
				}
			}
			return false
		})
		if w.done {
			return Selected{w.idx, w.v, w.ok}
		}
		w.done = true // withdraw
	}
}

func realSelect(def bool, cases []Case) Selected {
	for {
		for i := range cases {
			if cases[i].p == nil {
				continue
			}
			if v, ok, did := cases[i].try(); did {
				return Selected{i, v, ok}
			}
		}
		if def {
			return Selected{Idx: -1}
		}
	}
}

// Send is the statement c <- v.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if cur == nil {
			c <- v
			return
		}
		Select(false, SendCase(c)(v))
	}
}

// Recv is the expression <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-c
		return v, ok
	}
	return Got2(c, Select(false, RecvCase(c)))
}

// Close is close(c).
func Close[T any](c chan<- T) {
	close(c)
	if cur != nil {
		cur.sim.channel(chanPtr(c)).closed = true
	}
}
