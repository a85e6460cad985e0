// Package engine executes simulated histories of the library under test and judges them.
package engine

import (
	"encoding/binary"
	"encoding/json"

	"verifsim/prng"
	"verifsim/rt"
	"verifsim/sfnt"
	"verifsim/simio"
	"verifsim/simos"
)

// Mut is one alteration of a font file.
type Mut struct {
	K   string `json:"k"` // set flip trunc zero junk ins del tset dir num fix
	Off int64  `json:"off,omitempty"`
	Len int    `json:"len,omitempty"`
	V   uint64 `json:"v,omitempty"`
	T   string `json:"t,omitempty"`
	F   int    `json:"f,omitempty"`
}

// FontSrc is one font file of a plan: a generated (or real) font, possibly altered.
type FontSrc struct {
	Spec sfnt.Spec `json:"spec"`
	Muts []Mut     `json:"muts,omitempty"`
	Raw  []byte    `json:"raw,omitempty"` // instead of Spec
}

// Op is one operation of a simulated history.
type Op struct {
	K   string `json:"k"`
	R   int    `json:"r,omitempty"` // result register
	A   int    `json:"a,omitempty"` // argument register
	F   int    `json:"f,omitempty"` // font of the plan
	Via string `json:"via,omitempty"`
	// File is a name on the simulated disk.
	File string          `json:"file,omitempty"`
	N    int             `json:"n,omitempty"`
	G    []int           `json:"g,omitempty"`
	T    []string        `json:"t,omitempty"`
	S    []rune          `json:"s,omitempty"`
	Src  *simio.SrcSpec  `json:"src,omitempty"`
	Sink *simio.SinkSpec `json:"sink,omitempty"`
	DF   []simos.Fault   `json:"df,omitempty"`
	Muts []Mut           `json:"muts,omitempty"`
	Q    uint64          `json:"q,omitempty"`
}

// FileInit is the initial content of a file on the simulated disk.
type FileInit struct {
	Name string `json:"name"`
	Font int    `json:"font"` // -1: junk
	Len  int    `json:"len,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// Crash says when the simulated machine dies and what survives.
type Crash struct {
	At    int    `json:"at"` // before this disk event of the concurrent/sequential phase
	Tear  int    `json:"tear,omitempty"`
	Power bool   `json:"power,omitempty"`
	Seed  uint64 `json:"seed,omitempty"`
}

// Plan is one fully determined simulated run.
type Plan struct {
	Prop      string       `json:"prop"`
	Seed      uint64       `json:"seed"`
	Fonts     []FontSrc    `json:"fonts"`
	Files     []FileInit   `json:"files,omitempty"`
	Pre       []Op         `json:"pre"`
	Tasks     [][]Op       `json:"tasks,omitempty"`
	Post      [][]Op       `json:"post,omitempty"` // after each crash/restart
	Preempts  []rt.Preempt `json:"preempts,omitempty"`
	MapPark   bool         `json:"mapPark,omitempty"` // tasks stop before conflicting uses of a shared map
	MapSeed   uint64       `json:"mapSeed,omitempty"`
	EnvSeed   uint64       `json:"envSeed,omitempty"`
	Log       int          `json:"log,omitempty"`
	Chunk     uint64       `json:"chunk,omitempty"`
	Crash     []Crash      `json:"crash,omitempty"` // i-th crash: during Pre (0) or Post[i-1]
	StepLimit int64        `json:"stepLimit,omitempty"`
	Again     bool         `json:"again,omitempty"` // also run the whole plan a second time and compare
	Cold      bool         `json:"cold,omitempty"`  // the process has just started
	CLI       *CLI         `json:"cli,omitempty"`
}

// CLI is one simulated invocation of the command-line tool.
type CLI struct {
	Args []string      `json:"args"`
	DF   []simos.Fault `json:"df,omitempty"`
	// Twin: execute only, for comparison with the same command line under other circumstances.
	Twin bool `json:"twin,omitempty"`
}

// JSON renders the plan.
func (p *Plan) JSON() []byte {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

// Clone deep-copies the plan.
func (p *Plan) Clone() *Plan {
	var q Plan
	if err := json.Unmarshal(p.JSON(), &q); err != nil {
		panic(err)
	}
	return &q
}

// Bytes builds the file.
func (f *FontSrc) Bytes() []byte {
	var b []byte
	if f.Raw != nil {
		b = append([]byte{}, f.Raw...)
	} else {
		b = f.Spec.Bytes()
		if f.Spec.Real != "" || len(f.Muts) > 0 {
			b = append([]byte{}, b...)
		}
	}
	return ApplyMuts(b, f.Muts)
}

// ApplyMuts alters a file; b may be modified.
func ApplyMuts(b []byte, muts []Mut) []byte {
	for _, m := range muts {
		b = m.apply(b)
	}
	return b
}

func (m *Mut) apply(b []byte) []byte {
	at := func(off int64, n int) int {
		if n <= 0 {
			return 0
		}
		off %= int64(n)
		if off < 0 {
			off += int64(n)
		}
		return int(off)
	}
	if len(b) == 0 {
		return b
	}
	switch m.K {
	case "set":
		b[at(m.Off, len(b))] = byte(m.V)
	case "flip":
		b[at(m.Off, len(b))] ^= 1 << (m.V & 7)
	case "trunc":
		b = b[:at(m.Off, len(b))]
	case "zero", "junk":
		o := at(m.Off, len(b))
		r := prng.New(m.V)
		for i := o; i < min(len(b), o+m.Len); i++ {
			b[i] = 0
			if m.K == "junk" {
				b[i] = byte(r.U64())
			}
		}
	case "ins":
		o := at(m.Off, len(b))
		nb := append([]byte{}, b[:o]...)
		nb = append(nb, prng.New(m.V).Bytes(m.Len)...)
		b = append(nb, b[o:]...)
	case "del":
		o := at(m.Off, len(b))
		e := min(len(b), o+m.Len)
		b = append(append([]byte{}, b[:o]...), b[e:]...)
	case "append":
		b = append(b, prng.New(m.V).Bytes(m.Len)...)
	case "names":
		b = wideNames(b, m.V)
	case "num":
		if len(b) >= 6 {
			binary.BigEndian.PutUint16(b[4:], uint16(m.V))
		}
	case "tset", "tadd":
		recs, err := sfnt.Directory(b)
		if err != nil {
			return b
		}
		for _, r := range recs {
			if r.Tag != m.T || uint64(r.Off)+uint64(r.Length) > uint64(len(b)) || r.Length < 4 {
				continue
			}
			o := int(r.Off) + at(m.Off, int(r.Length))
			if o+m.Len > len(b) {
				o = len(b) - m.Len
			}
			if o < 0 {
				continue
			}
			v := m.V
			for i := m.Len - 1; i >= 0; i-- {
				if m.K == "tadd" {
					v += uint64(b[o+i])
				}
				b[o+i] = byte(v)
				v >>= 8
			}
		}
	case "dir":
		recs, err := sfnt.Directory(b)
		if err != nil {
			return b
		}
		for _, r := range recs {
			if r.Tag == m.T {
				binary.BigEndian.PutUint32(b[r.Pos+4*(m.F&3):], uint32(m.V))
			}
		}
	case "diradd":
		recs, err := sfnt.Directory(b)
		if err != nil {
			return b
		}
		for _, r := range recs {
			if r.Tag == m.T {
				p := b[r.Pos+4*(m.F&3):]
				binary.BigEndian.PutUint32(p, binary.BigEndian.Uint32(p)+uint32(m.V))
			}
		}
	case "fix":
		recs, err := sfnt.Directory(b)
		if err != nil {
			return b
		}
		ok := func(r sfnt.Rec) bool { return uint64(r.Off)+uint64(r.Length) <= uint64(len(b)) }
		if m.F&1 != 0 {
			for _, r := range recs {
				if !ok(r) {
					continue
				}
				d := append([]byte{}, b[r.Off:r.Off+r.Length]...)
				if r.Tag == "head" && len(d) >= 12 {
					copy(d[8:], []byte{0, 0, 0, 0})
				}
				binary.BigEndian.PutUint32(b[r.Pos+4:], sfnt.Sum(d))
			}
		}
		if m.F&2 != 0 {
			for _, r := range recs {
				if r.Tag == "head" && uint64(r.Off)+12 <= uint64(len(b)) {
					p := b[r.Off+8:]
					binary.BigEndian.PutUint32(p, 0)
					binary.BigEndian.PutUint32(p, 0xB1B0AFBA-sfnt.Sum(b))
					break
				}
			}
		}
	}
	return b
}

// wideNames replaces the naming table by one whose strings overlap in the file, so that they take less room
// there than one by one: well-formed, but possibly more than a writer that stores them separately can fit.
func wideNames(b []byte, seed uint64) []byte {
	recs, err := sfnt.Directory(b)
	if err != nil {
		return b
	}
	for _, r := range recs {
		if r.Tag != "name" {
			continue
		}
		q := prng.New(seed)
		n, size := 2+q.N(8), 2000+q.N(58000)
		d := binary.BigEndian.AppendUint16(nil, 0)
		d = binary.BigEndian.AppendUint16(d, uint16(n))
		d = binary.BigEndian.AppendUint16(d, uint16(6+12*n))
		for i := 0; i < n; i++ {
			l := (size/4 + q.N(size/2)) &^ 1
			o := q.N(size-l+1) &^ 1
			for _, v := range []int{3, 1, 0x409, i, l, o} {
				d = binary.BigEndian.AppendUint16(d, uint16(v))
			}
		}
		for i := 0; i < (size+1)/2; i++ {
			d = append(d, 0x4e, byte(q.N(256)))
		}
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		b = append([]byte{}, b...)
		binary.BigEndian.PutUint32(b[r.Pos+8:], uint32(len(b)))
		binary.BigEndian.PutUint32(b[r.Pos+12:], uint32(len(d)))
		b = append(b, d...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		return b
	}
	return b
}
