// Package simio holds the simulated byte sources and destinations handed to the library's stream API.
package simio

import (
	"errors"
	"io"
	"syscall"

	"verifsim/prng"
	"verifsim/rt"
)

// ErrIO is the error injected faults return.
var ErrIO = errors.New("simulated I/O error")

type timeout struct{}

func (timeout) Error() string   { return "simulated timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// Errs are the identities an injected error can have. Code that treats one of them as "try again", "that was
// all" or "not an error" has to be right about it.
var Errs = map[string]error{
	"":        ErrIO,
	"short":   io.ErrShortWrite,
	"ueof":    io.ErrUnexpectedEOF,
	"eof":     io.EOF, // destinations only
	"closed":  io.ErrClosedPipe,
	"noprog":  io.ErrNoProgress,
	"buffer":  io.ErrShortBuffer,
	"timeout": timeout{},
	"eintr":   syscall.EINTR,
	"eagain":  syscall.EAGAIN,
	"nospc":   syscall.ENOSPC,
}

// Fault of a source.
// Kind "read": reads at or beyond byte At fail (data before it is still delivered).
// Kind "eof": the source pretends to end at byte At.
// Kind "nread": the Nth read call fails. Kind "nseek": the Nth seek call fails.
type Fault struct {
	Kind string `json:"kind"`
	At   int64  `json:"at,omitempty"`
	Nth  int    `json:"nth,omitempty"`
	Once bool   `json:"once,omitempty"` // the fault clears after it fired once
	Err  string `json:"err,omitempty"`  // which of Errs
}

// SrcSpec describes how a source delivers its bytes.
type SrcSpec struct {
	// Policy: "" or full, one, rand, empty, eofdata, mix.
	Policy string  `json:"policy,omitempty"`
	Seed   uint64  `json:"seed,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
}

// Source is a simulated io.ReadSeeker.
type Source struct {
	data     []byte
	pos      int64
	pol      string
	r        *prng.R
	faults   []Fault
	fired    []int
	reads    int
	seeks    int
	empties  int
	poisoned bool
	// Statistics.
	Fired  int
	Shorts int
	Reads  int
	Seeks  int
	Events int
}

// NewSource wraps data (not copied).
func NewSource(data []byte, s *SrcSpec) *Source {
	q := &Source{data: data}
	if s != nil {
		q.pol = s.Policy
		q.r = prng.New(s.Seed)
		q.faults = s.Faults
		q.fired = make([]int, len(s.Faults))
	}
	return q
}

// Poison makes every later use fail: the library must not depend on the source once it returned.
func (s *Source) Poison() { s.poisoned = true }

func (s *Source) hit(i int) bool {
	if s.faults[i].Once && s.fired[i] > 0 {
		return false
	}
	s.fired[i]++
	s.Fired++
	return true
}

// Read implements io.Reader.
func (s *Source) Read(b []byte) (int, error) {
	rt.IO()
	if s.poisoned {
		return 0, ErrIO
	}
	s.reads++
	s.Reads++
	size := int64(len(s.data))
	var lim = -1
	for i, f := range s.faults {
		switch f.Kind {
		case "nread":
			if s.reads >= f.Nth && s.hit(i) {
				return 0, Errs[f.Err]
			}
		case "read", "eof":
			if f.At < size && !(f.Once && s.fired[i] > 0) {
				size, lim = f.At, i
			}
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= size {
		if lim >= 0 {
			s.hit(lim)
			if s.faults[lim].Kind == "read" {
				return 0, Errs[s.faults[lim].Err]
			}
		}
		return 0, io.EOF
	}
	n := int(min(int64(len(b)), size-s.pos))
	full := n
	pol := s.pol
	if pol == "mix" {
		pol = prng.Pick(s.r, "full", "one", "rand", "empty", "eofdata")
	}
	switch pol {
	case "one":
		n = 1
	case "rand":
		n = 1 + s.r.Log(n)
	case "empty":
		if s.empties < 3 && s.r.P(1, 3) {
			s.empties++
			s.Shorts++
			return 0, nil
		}
		s.empties = 0
		if s.r.P(1, 2) {
			n = 1 + s.r.N(n)
		}
	}
	if n > full {
		n = full
	}
	if n < full {
		s.Shorts++
	}
	copy(b, s.data[s.pos:s.pos+int64(n)])
	s.pos += int64(n)
	if pol == "eofdata" && s.pos >= size {
		if lim >= 0 {
			s.hit(lim)
			if s.faults[lim].Kind == "read" {
				return n, Errs[s.faults[lim].Err]
			}
		}
		return n, io.EOF
	}
	return n, nil
}

// Seek implements io.Seeker.
func (s *Source) Seek(off int64, whence int) (int64, error) {
	rt.IO()
	if s.poisoned {
		return 0, ErrIO
	}
	s.seeks++
	s.Seeks++
	for i, f := range s.faults {
		if f.Kind == "nseek" && s.seeks >= f.Nth && s.hit(i) {
			return 0, Errs[f.Err]
		}
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.data))
	}
	if off < 0 {
		return 0, errors.New("simulated seek before start")
	}
	s.pos = off
	return off, nil
}

// SinkSpec describes how a destination misbehaves.
// Kind "err": accepts At bytes in total, then fails. Kind "short": accepts At bytes, then returns a short
// count without an error once and fails from then on (a caller that goes on with the rest, as bufio.Writer
// does, must not wait forever). Kind "late": accepts everything but the call that reaches byte At returns an error.
type SinkSpec struct {
	Kind string `json:"kind"`
	At   int64  `json:"at"`
	Once bool   `json:"once,omitempty"`
	Err  string `json:"err,omitempty"` // which of Errs
}

// Sink is a simulated io.Writer.
type Sink struct {
	Data   []byte
	spec   *SinkSpec
	Fired  int
	Writes int
}

// NewSink makes a destination.
func NewSink(s *SinkSpec) *Sink { return &Sink{spec: s} }

// Write implements io.Writer.
func (s *Sink) Write(b []byte) (int, error) {
	s.Writes++
	rt.IO()
	f := s.spec
	if f != nil && !(f.Once && s.Fired > 0) && int64(len(s.Data)+len(b)) > f.At {
		n := int(max(0, f.At-int64(len(s.Data))))
		s.Fired++
		switch f.Kind {
		case "short":
			if s.Fired > 1 {
				return 0, Errs[f.Err]
			}
			s.Data = append(s.Data, b[:n]...)
			return n, nil
		case "late":
			s.Data = append(s.Data, b...)
			return len(b), Errs[f.Err]
		}
		s.Data = append(s.Data, b[:n]...)
		return n, Errs[f.Err]
	}
	s.Data = append(s.Data, b...)
	return len(b), nil
}
