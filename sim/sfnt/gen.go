package sfnt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"unicode/utf16"

	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"

	"verifsim/prng"
)

// Spec describes a generated well-formed font. Bytes is a pure function of it.
type Spec struct {
	Seed uint64 `json:"seed"`
	Real string `json:"real,omitempty"` // a font file of the repository instead
	N    int    `json:"n"`
	Long bool   `json:"long,omitempty"`
	Base int    `json:"base,omitempty"` // location of the first glyph inside glyf
	Max  int    `json:"max"`            // largest ordinary glyph, bytes
	Big  int    `json:"big,omitempty"`  // 1+gid of a glyph of 64 KB or more
	// percentages of empty and composite glyphs
	Empty  int        `json:"empty,omitempty"`
	Comp   int        `json:"comp,omitempty"`
	Cycle  bool       `json:"cycle,omitempty"`
	Wide   int        `json:"wide,omitempty"` // 1+gid of a composite of hundreds of components
	NHM    int        `json:"nhm"`
	Tail   int        `json:"tail,omitempty"` // length of the trailing run of equal advances
	NoHmtx bool       `json:"noHmtx,omitempty"`
	NoGlyf bool       `json:"noGlyf,omitempty"`
	Prep   int        `json:"prep"` // -1 absent, else length
	Cvt    int        `json:"cvt"`
	Fpgm   int        `json:"fpgm"`
	OS2    int        `json:"os2"`  // -1 absent, else version
	Post   int        `json:"post"` // 0 absent, 1, 2, 25, 3
	PLong  bool       `json:"plong,omitempty"`
	PShare bool       `json:"pshare,omitempty"`
	Name   *NameSpec  `json:"name,omitempty"`
	Cmaps  []CmapSpec `json:"cmaps,omitempty"`
	NoCmap bool       `json:"noCmap,omitempty"`
	Extra  int        `json:"extra,omitempty"`
	Bulk   int        `json:"bulk,omitempty"`  // size of another table unknown to the library
	Order  uint64     `json:"order,omitempty"` // physical table order; 0: directory order
	Gaps   int        `json:"gaps,omitempty"`  // up to this many extra 4-byte gaps between tables
	Dirty  bool       `json:"dirty,omitempty"` // gaps and trailing bytes are not zero
	Trail  int        `json:"trail,omitempty"` // extra words after the last table
	NoPad  bool       `json:"noPad,omitempty"` // the file ends with the last byte of the last table
	Unsort bool       `json:"unsort,omitempty"`
	True   bool       `json:"true,omitempty"` // sfnt version 'true'
}

// NameSpec describes the naming table.
type NameSpec struct {
	Format int  `json:"format"`
	N      int  `json:"n"`
	Tags   int  `json:"tags,omitempty"`
	Max    int  `json:"max"`
	Share  bool `json:"share,omitempty"`
	Odd    bool `json:"odd,omitempty"` // some strings end in half a character
	TagMax int  `json:"tagMax,omitempty"`
	Lit    bool `json:"lit,omitempty"` // storage is laid out out of order and with unused bytes
}

// CmapSpec describes one mapping subtable.
type CmapSpec struct {
	P     int    `json:"p"`
	E     int    `json:"e"`
	F     int    `json:"f"`
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`               // approximate number of codes
	Style int    `json:"style,omitempty"` // format 4: 0 delta, 1 array, 2 mixed; gid order: +4 random
	Share bool   `json:"share,omitempty"` // use the data of the previous subtable
	Lang  int    `json:"lang,omitempty"`  // -1: none; 0: drawn; else one of several subtables that differ in it
}

// RealDir is where the repository's own fonts live.
var RealDir = "/repo/testdata"

// Bytes builds the font file.
func (s Spec) Bytes() []byte {
	if s.Real != "" {
		b, err := os.ReadFile(RealDir + "/" + s.Real)
		if err == nil {
			return b
		}
		// The repository no longer has this font: fall back to a generated one.
		s.Real = ""
	}
	j, _ := json.Marshal(s)
	if b, ok := memo[string(j)]; ok {
		return b
	}
	b := build(s)
	if len(memo) > 8 {
		clear(memo)
	}
	memo[string(j)] = b
	return b
}

// memo holds the most recently built fonts; callers do not change them.
var memo = map[string][]byte{}

type tbl struct {
	tag  string
	data []byte
}

func be16(b []byte, vs ...int) []byte {
	for _, v := range vs {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

func be32(b []byte, vs ...uint32) []byte {
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

func (s *Spec) clamp() {
	if s.N < 1 {
		s.N = 1
	}
	if s.N > 65535 {
		s.N = 65535
	}
	if s.Post == 1 {
		s.N = 258
	}
	if s.NHM < 1 {
		s.NHM = 1
	}
	if s.NHM > s.N {
		s.NHM = s.N
	}
	if s.Max < 12 {
		s.Max = 12
	}
	if s.Big > s.N {
		s.Big = s.N
	}
	if s.Wide > s.N {
		s.Wide = 0
	}
	if s.Wide > 0 {
		s.Long = true
	}
	if !s.Long {
		s.Base &^= 1
		// Short locations reach 131070 bytes.
		room := 131000 - s.Base
		if s.Big > 0 {
			room -= 66000
		}
		if s.N*s.Max > room {
			s.Max = room / s.N
			if s.Max < 24 {
				s.Max = 24
			}
			if s.N*s.Max > room {
				s.Long = true
			}
		}
	}
	if s.N > 2000 && s.Max > 40 {
		s.Max = 40
	}
}

// GlyphBytes returns the outline data of one generated glyph.
func (s *Spec) glyph(gid int) []byte {
	r := prng.New(prng.Mix(s.Seed, 0x61, uint64(gid)))
	isBig := s.Big == gid+1
	wide := s.Wide == gid+1
	if !isBig && !wide && r.N(100) < s.Empty {
		return nil
	}
	if !isBig && gid > 0 && s.N > 1 && (r.N(100) < s.Comp || wide) {
		if g := s.composite(r, gid); g != nil {
			return g
		}
	}
	n := 12 + r.N(s.Max-11)
	if r.P(1, 20) {
		n = 10
	}
	if isBig {
		n = 65536 + 2*r.N(200)
	}
	g := r.Bytes(n)
	nc := r.N(6)
	copy(g, be16(nil, nc))
	if !s.Long && len(g)%2 == 1 {
		g = append(g, 0)
	}
	return g
}

func rank(seed uint64, g int) uint64 { return prng.Mix(seed, 0x72, uint64(g)) }

func (s *Spec) composite(r *prng.R, gid int) []byte {
	k := 1 + r.N(3)
	if r.P(1, 8) {
		k = 1 + r.N(9)
	}
	if s.Wide == gid+1 {
		k = 500 + r.N(200) // more than a read buffer of component records
	}
	var comps []int
	for tries := 0; len(comps) < k && tries < 40+2*k; tries++ {
		var c int
		if r.P(1, 2) {
			c = r.N(s.N)
		} else {
			c = gid + r.In(-4, 4)
		}
		if c < 0 || c >= s.N {
			continue
		}
		if !s.Cycle && (c == gid || rank(s.Seed, c) <= rank(s.Seed, gid)) {
			continue
		}
		comps = append(comps, c)
	}
	if len(comps) == 0 {
		return nil
	}
	g := be16(nil, 0x10000-1-r.N(3)*r.N(2), int(r.U16()), int(r.U16()), int(r.U16()), int(r.U16()))
	instr := r.P(1, 4)
	for i, c := range comps {
		fl := r.N(2) * 0x0002
		fl |= r.N(2) * 0x0004
		fl |= r.N(2) * 0x0200
		fl |= r.N(2) * 0x0400
		fl |= r.N(2) * 0x0800
		if i+1 < len(comps) {
			fl |= 0x0020
		}
		words := r.P(1, 2)
		if words {
			fl |= 0x0001
		}
		sc := r.N(5)
		switch sc {
		case 1:
			fl |= 0x0008
		case 2:
			fl |= 0x0040
		case 3:
			fl |= 0x0080
		}
		if instr && (i+1 == len(comps) || r.P(1, 2)) {
			fl |= 0x0100
		}
		g = be16(g, fl, c)
		if words {
			g = be16(g, int(r.U16()), int(r.U16()))
		} else {
			g = append(g, byte(r.U64()), byte(r.U64()))
		}
		for j := 0; j < []int{0, 1, 2, 4, 0}[sc]; j++ {
			g = be16(g, int(r.U16()))
		}
	}
	if instr {
		n := 1 + r.N(6)
		g = be16(g, n)
		g = append(g, r.Bytes(n)...)
	}
	if !s.Long && len(g)%2 == 1 {
		g = append(g, 0)
	} else if r.P(1, 6) {
		g = append(g, 0, 0)
	}
	return g
}

func build(s Spec) []byte {
	s.clamp()
	var tabs []tbl
	add := func(t string, d []byte) { tabs = append(tabs, tbl{t, d}) }
	r := prng.New(prng.Mix(s.Seed, 1))

	// head
	loc := 0
	if s.Long {
		loc = 1
	}
	h := be16(nil, 1, 0)
	h = be32(h, uint32(r.U64()), 0, 0x5F0F3CF5)
	h = be16(h, int(r.U16()), 16+r.N(16369))
	h = append(h, r.Bytes(16)...)
	h = be16(h, int(r.U16()), int(r.U16()), int(r.U16()), int(r.U16()), int(r.U16()), int(r.U16()), r.N(5)-2, loc, 0)
	add("head", h)

	m := be32(nil, 0x00010000)
	m = be16(m, s.N)
	for i := 0; i < 13; i++ {
		m = be16(m, int(r.U16()))
	}
	add("maxp", m)

	hh := be16(nil, 1, 0)
	for i := 0; i < 10; i++ {
		hh = be16(hh, int(r.U16()))
	}
	hh = append(hh, 0, 0, 0, 0, 0, 0, 0, 0)
	hh = be16(hh, 0, s.NHM)
	add("hhea", hh)

	if !s.NoHmtx {
		var hm []byte
		tail := int(prng.New(prng.Mix(s.Seed, 3)).U64() & 0x7ff)
		for i := 0; i < s.N; i++ {
			q := prng.New(prng.Mix(s.Seed, 2, uint64(i)))
			adv := int(q.U64() & 0x7ff)
			if q.P(1, 4) {
				adv = 600 // frequent repeats that are not the trailing run
			}
			if q.P(1, 40) {
				adv = 65535
			}
			if i >= s.NHM-s.Tail {
				adv = tail
			}
			lsb := int(q.U16())
			if i < s.NHM {
				hm = be16(hm, adv)
			}
			hm = be16(hm, lsb)
		}
		add("hmtx", hm)
	}

	// glyf, loca
	glyf := make([]byte, s.Base)
	for i := range glyf {
		glyf[i] = byte(i*7 + 1)
	}
	var loca []byte
	put := func() {
		if s.Long {
			loca = be32(loca, uint32(len(glyf)))
		} else {
			loca = be16(loca, len(glyf)/2)
		}
	}
	for g := 0; g < s.N; g++ {
		put()
		if s.NoGlyf {
			continue
		}
		d := s.glyph(g)
		if !s.Long && len(glyf)+len(d) > 131070 {
			d = nil
		}
		glyf = append(glyf, d...)
	}
	put()
	add("loca", loca)
	if !s.NoGlyf {
		if prng.New(prng.Mix(s.Seed, 4)).P(1, 4) {
			glyf = append(glyf, 0xde, 0xad) // unused space after the last glyph
		}
		add("glyf", glyf)
	}

	q := prng.New(prng.Mix(s.Seed, 5))
	if s.Prep >= 0 {
		add("prep", q.Bytes(s.Prep))
	}
	if s.Cvt >= 0 {
		add("cvt ", q.Bytes(s.Cvt&^1))
	}
	if s.Fpgm >= 0 {
		add("fpgm", q.Bytes(s.Fpgm))
	}
	if s.OS2 >= 0 {
		q := prng.New(prng.Mix(s.Seed, 6))
		n := []int{78, 86, 96, 96, 96, 100}[min(s.OS2, 5)]
		d := q.Bytes(n)
		copy(d, be16(nil, s.OS2))
		add("OS/2", d)
	}
	if s.Post > 0 {
		add("post", s.post())
	}
	if s.Name != nil {
		add("name", s.name())
	}
	if !s.NoCmap {
		add("cmap", s.cmap())
	}
	s.corners(tabs)
	for i := 0; i < s.Extra; i++ {
		q := prng.New(prng.Mix(s.Seed, 7, uint64(i)))
		add([]string{"GDEF", "kern", "DSIG", "zzzz", "GPOS", "aaaa"}[i%6], q.Bytes(q.N(60)))
	}
	if s.Bulk > 0 {
		add("bulk", prng.New(prng.Mix(s.Seed, 18)).Bytes(s.Bulk))
	}
	return assemble(&s, tabs)
}

// corners gives some of the plain values in the header tables a value random words do not take: none at all,
// the largest, the smallest.
func (s *Spec) corners(tabs []tbl) {
	q := prng.New(prng.Mix(s.Seed, 21))
	if !q.P(1, 3) {
		return
	}
	fields := func(from, to, size int) (f [][2]int) {
		for ; from+size <= to; from += size {
			f = append(f, [2]int{from, size})
		}
		return f
	}
	for _, t := range tabs {
		var f [][2]int
		switch t.tag {
		case "head":
			f = append([][2]int{{4, 4}, {16, 2}, {20, 8}, {20, 8}, {28, 8}, {28, 8}}, fields(36, 50, 2)...)
		case "maxp":
			f = fields(6, 32, 2)
		case "hhea":
			f = fields(4, 24, 2)
		case "OS/2":
			f = fields(2, len(t.data), 2)
		default:
			continue
		}
		k := q.N(4)
		if q.P(1, 6) {
			k = 2 * len(f)
		}
		v := prng.Pick(q, 0, 0, 0xffff, 0x8000, 0x7fff, 1)
		for ; k > 0; k-- {
			at := prng.Pick(q, f...)
			for i := 0; i < at[1]; i += 2 {
				copy(t.data[at[0]+i:], be16(nil, v))
			}
			if q.P(1, 3) {
				v = prng.Pick(q, 0, 0, 0xffff, 0x8000, 0x7fff, 1)
			}
		}
	}
}

func assemble(s *Spec, tabs []tbl) []byte {
	sort.SliceStable(tabs, func(i, j int) bool { return tabs[i].tag < tabs[j].tag })
	if s.Unsort {
		prng.Shuffle(prng.New(prng.Mix(s.Seed, 8)), tabs)
	}
	n := len(tabs)
	phys := make([]int, n)
	for i := range phys {
		phys[i] = i
	}
	if s.Order != 0 {
		prng.Shuffle(prng.New(prng.Mix(s.Order, 9)), phys)
	}
	out := be32(nil, 0x00010000)
	if s.True {
		out = []byte("true")
	}
	es, sr := 0, 16
	for 1<<(es+1) <= n {
		es++
		sr *= 2
	}
	out = be16(out, n, sr, es, 16*n-sr)
	out = append(out, make([]byte, 16*n)...)
	q := prng.New(prng.Mix(s.Seed, 10))
	offs := make([]int, n)
	gap := func(k int) {
		for i := 0; i < k; i++ {
			if s.Dirty {
				out = append(out, q.Bytes(4)...)
			} else {
				out = append(out, 0, 0, 0, 0)
			}
		}
	}
	headAt := 0
	for _, i := range phys {
		gap(q.N(s.Gaps + 1))
		offs[i] = len(out)
		if tabs[i].tag == "head" {
			headAt = len(out)
		}
		out = append(out, tabs[i].data...)
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
	}
	if s.NoPad && n > 0 {
		last := phys[n-1]
		out = out[:offs[last]+len(tabs[last].data)]
	} else {
		gap(s.Trail)
	}
	for i, t := range tabs {
		o := 12 + 16*i
		copy(out[o:], t.tag)
		binary.BigEndian.PutUint32(out[o+4:], Sum(t.data))
		binary.BigEndian.PutUint32(out[o+8:], uint32(offs[i]))
		binary.BigEndian.PutUint32(out[o+12:], uint32(len(t.data)))
	}
	binary.BigEndian.PutUint32(out[headAt+8:], 0)
	binary.BigEndian.PutUint32(out[headAt+8:], 0xB1B0AFBA-Sum(out))
	return out
}

func (s *Spec) post() []byte {
	q := prng.New(prng.Mix(s.Seed, 11))
	v := map[int]uint32{1: 0x00010000, 2: 0x00020000, 25: 0x00025000, 3: 0x00030000}[s.Post]
	d := be32(nil, v)
	d = append(d, q.Bytes(28)...)
	switch s.Post {
	case 2:
		d = be16(d, s.N)
		var names [][]byte
		for g := 0; g < s.N; g++ {
			q := prng.New(prng.Mix(s.Seed, 12, uint64(g)))
			if q.P(1, 2) {
				d = be16(d, q.N(258))
				continue
			}
			if s.PShare && len(names) > 0 && q.P(1, 3) {
				d = be16(d, 258+q.N(len(names)))
				continue
			}
			if 258+len(names) > 32767 {
				d = be16(d, 0)
				continue
			}
			d = be16(d, 258+len(names))
			n := 1 + q.N(20)
			if s.PLong && q.P(1, 4) {
				n = 64 + q.N(192)
			}
			nm := q.Bytes(n)
			for i := range nm {
				nm[i] = 'a' + nm[i]%26
			}
			names = append(names, nm)
		}
		for _, nm := range names {
			d = append(d, byte(len(nm)))
			d = append(d, nm...)
		}
	case 25:
		d = be16(d, s.N)
		for g := 0; g < s.N; g++ {
			q := prng.New(prng.Mix(s.Seed, 13, uint64(g)))
			if g > 100 {
				d = append(d, 0x80|byte(q.N(20)))
			} else if q.P(1, 3) {
				d = append(d, byte(-q.N(g+1)))
			} else {
				d = append(d, byte(q.N(40)))
			}
		}
	}
	return d
}

var nameRunes = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,-()!")

func randName(q *prng.R, p, n int) []byte {
	var rs []rune
	for i := 0; i < n; i++ {
		c := nameRunes[q.N(len(nameRunes))]
		switch q.N(12) {
		case 0:
			c = prng.Pick(q, 'é', 'ü', 'ß', '©', '€')
		case 1:
			if p != 1 {
				c = prng.Pick(q, '漢', 'Ω', 'Я', 'あ', '\U0001F600', '\U00020000')
			}
		case 2:
			c = ' '
		}
		rs = append(rs, c)
	}
	if p == 1 {
		b, err := charmap.Macintosh.NewEncoder().Bytes([]byte(string(rs)))
		if err != nil {
			panic(err)
		}
		return b
	}
	var b []byte
	for _, u := range utf16.Encode(rs) {
		b = be16(b, int(u))
	}
	return b
}

func (s *Spec) name() []byte {
	ns := s.Name
	q := prng.New(prng.Mix(s.Seed, 14))
	var recs []NameRec
	seen := map[[4]int]bool{}
	var pool [3][][]byte
	for i := 0; i < ns.N; i++ {
		q := prng.New(prng.Mix(s.Seed, 15, uint64(i)))
		pe := prng.Pick(q, [2]int{3, 1}, [2]int{1, 0}, [2]int{3, 1}, [2]int{0, 3}, [2]int{3, 0}, [2]int{1, 0}, [2]int{0, 4}, [2]int{3, 10})
		lang := prng.Pick(q, 0, 0x409, 0x407, 0x411, 1, 0x809, 0xC0A)
		if ns.Format == 1 && ns.Tags > 0 && q.P(1, 3) {
			lang = 0x8000 + q.N(ns.Tags)
		}
		id := q.N(8)
		if q.P(1, 4) {
			id = prng.Pick(q, 16, 17, 25, 255, 256, 32767, 40000)
		}
		if ns.N > 40 {
			id = i
		}
		k := [4]int{pe[0], pe[1], lang, id}
		if seen[k] {
			continue
		}
		seen[k] = true
		n := q.N(ns.Max + 1)
		if q.P(1, 12) {
			n = 0
		}
		cls := min(pe[0], 2)
		var data []byte
		if ns.Share && len(pool[cls]) > 0 && q.P(1, 2) {
			data = pool[cls][q.N(len(pool[cls]))]
			if from := 2 * q.N(2); cls == 1 && len(pool[from]) > 0 && q.P(1, 4) { // the bytes of a string in another encoding
				data = pool[from][len(pool[from])-1]
			}
			if q.P(1, 3) && len(data) >= 4 { // a shared suffix
				data = data[2*q.N(len(data)/2):]
				if cls != 1 && len(data) >= 2 && data[0]&0xfc == 0xdc { // do not start inside a surrogate pair
					data = data[2:]
				}
			}
		} else {
			data = randName(q, pe[0], n)
		}
		if ns.Odd && pe[0] != 1 && q.P(1, 3) && len(data) > 0 { // half a character
			data = data[: len(data)-1 : len(data)-1]
		}
		pool[cls] = append(pool[cls], data)
		recs = append(recs, NameRec{uint16(pe[0]), uint16(pe[1]), uint16(lang), uint16(id), data})
	}
	if !ns.Lit {
		sort.SliceStable(recs, func(i, j int) bool {
			a, b := recs[i], recs[j]
			if a.P != b.P {
				return a.P < b.P
			}
			if a.E != b.E {
				return a.E < b.E
			}
			if a.L != b.L {
				return a.L < b.L
			}
			return a.ID < b.ID
		})
	}
	var tags [][]byte
	if ns.Format == 1 {
		for i := 0; i < ns.Tags; i++ {
			tags = append(tags, randName(q, 3, 2+q.N(6+ns.TagMax)))
		}
	}
	// String storage.
	var store []byte
	if ns.Lit {
		store = append(store, q.Bytes(q.N(5))...)
	}
	place := func(b []byte) int {
		if ns.Share {
			if i := indexOf(store, b); i >= 0 {
				return i
			}
		}
		if len(store)+len(b) > 65535 {
			return -1
		}
		o := len(store)
		store = append(store, b...)
		if ns.Lit && q.P(1, 4) {
			store = append(store, q.Bytes(q.N(3))...)
		}
		return o
	}
	type ref struct{ o, l int }
	refs := make([]ref, len(recs)+len(tags))
	order := make([]int, len(refs))
	for i := range order {
		order[i] = i
	}
	if ns.Lit {
		prng.Shuffle(q, order)
	}
	for _, i := range order {
		b := []byte(nil)
		if i < len(recs) {
			b = recs[i].Data
		} else {
			b = tags[i-len(recs)]
		}
		o := place(b)
		if o < 0 {
			o, b = 0, nil
		}
		refs[i] = ref{o, len(b)}
	}
	so := 6 + 12*len(recs)
	if ns.Format == 1 {
		so += 2 + 4*len(tags)
	}
	gap := 0
	if q := prng.New(prng.Mix(s.Seed, 17)); ns.Lit && q.P(1, 2) {
		gap = q.N(12) // unused bytes before the strings
	}
	d := be16(nil, ns.Format, len(recs), so+gap)
	for i, rc := range recs {
		d = be16(d, int(rc.P), int(rc.E), int(rc.L), int(rc.ID), refs[i].l, refs[i].o)
	}
	if ns.Format == 1 {
		d = be16(d, len(tags))
		for i := range tags {
			d = be16(d, refs[len(recs)+i].l, refs[len(recs)+i].o)
		}
	}
	d = append(d, make([]byte, gap)...)
	return append(d, store...)
}

func indexOf(h, n []byte) int {
	if len(n) == 0 {
		return 0
	}
	return indexBytes(h, n)
}

// cjkCodes lists double-byte codes of a legacy encoding that decode to one character each.
func legacyCodes(e int) []uint32 {
	if c, ok := legacyCache[e]; ok {
		return c
	}
	var out []uint32
	for r := rune(0x4e00); r < 0x4e00+1500; r++ {
		if c, ok := legacyEncode(e, r); ok {
			if d, ok := LegacyDecode(e, c); ok && d == r {
				out = append(out, c)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	legacyCache[e] = out
	return out
}

var legacyCache = map[int][]uint32{}

func legacyEncode(e int, r rune) (uint32, bool) {
	var b []byte
	var err error
	switch e {
	case 2:
		b, err = japanese.ShiftJIS.NewEncoder().Bytes([]byte(string(r)))
	case 3:
		b, err = simplifiedchinese.GBK.NewEncoder().Bytes([]byte(string(r)))
	case 4:
		b, err = traditionalchinese.Big5.NewEncoder().Bytes([]byte(string(r)))
	}
	if err != nil || len(b) != 2 {
		return 0, false
	}
	return uint32(b[0])<<8 | uint32(b[1]), true
}

// LegacyDecode decodes a double-byte code of Windows encoding e.
func LegacyDecode(e int, c uint32) (rune, bool) {
	in := []byte{byte(c >> 8), byte(c)}
	var b []byte
	var err error
	switch e {
	case 2:
		b, err = japanese.ShiftJIS.NewDecoder().Bytes(in)
	case 3:
		b, err = simplifiedchinese.GBK.NewDecoder().Bytes(in)
	case 4:
		b, err = traditionalchinese.Big5.NewDecoder().Bytes(in)
	default:
		return 0, false
	}
	rs := []rune(string(b))
	if err != nil || len(rs) != 1 || rs[0] == 0xfffd {
		return 0, false
	}
	return rs[0], true
}

// codes picks the character codes of one subtable.
func (c *CmapSpec) codes(n int) []uint32 {
	q := prng.New(prng.Mix(c.Seed, 20))
	set := map[uint32]bool{}
	ok := func(v uint32) bool {
		return v < 0xd800 || v >= 0xe000 && v <= 0xfffe || v > 0xffff && v <= 0x10ffff
	}
	hi := uint32(0xfffe) // 0xffff ends a format 4 subtable
	wide := c.P == 3 && c.E == 10 || c.P == 0 && (c.E == 4 || c.E == 6)
	if c.P == 1 || c.F == 0 {
		hi = 255
		n = min(n, 256)
	}
	if c.P == 3 && c.E >= 2 && c.E <= 4 {
		lc := legacyCodes(c.E)
		i := q.N(len(lc))
		for len(set) < n && len(set) < len(lc) {
			set[lc[i%len(lc)]] = true
			if q.P(1, 3) {
				i += q.N(50)
			}
			i++
		}
	} else {
		work := 0
		for guard := 0; len(set) < n && guard < 4*n+64 && work < 16*n+4096; guard++ {
			// a run of codes
			var start uint32
			switch {
			case hi == 255:
				start = uint32(q.N(256))
			case wide && q.P(1, 2):
				start = prng.Pick(q, uint32(0x10000), 0x1F600, 0x20000, 0x10FFF0, 0x1D400) + uint32(q.N(64))
			default:
				start = prng.Pick(q, uint32(0x20), 0x41, 0x61, 0x30, 0xA0, 0x400, 0x3040, 0x4E00, 0xE000, 0xF000, 0xFFF0, 0, 0xD7F0, 0xDFF0, 0x2000, 0xFB00)
				if q.P(1, 3) {
					start += uint32(q.N(200))
				}
			}
			ln := 1 + q.N(4)
			if q.P(1, 3) {
				ln = 1 + q.N(n)
			}
			for k := 0; k < ln && len(set) < n; k++ {
				work++
				v := start + uint32(k)
				if hi == 255 {
					v &= 255
				}
				if (v <= hi || wide && v > 0xffff) && ok(v) {
					set[v] = true
				}
			}
		}
	}
	out := make([]uint32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// mapping assigns glyphs to the codes.
func (c *CmapSpec) mapping(nGlyphs int) (codes []uint32, gids []int) {
	if c.N <= 0 {
		return nil, nil
	}
	codes = c.codes(c.N)
	q := prng.New(prng.Mix(c.Seed, 21))
	g := 1
	lim := nGlyphs
	if c.F == 0 && lim > 256 {
		lim = 256
	}
	for range codes {
		v := 0
		if lim > 1 {
			switch {
			case c.Style&4 != 0:
				v = 1 + q.N(lim-1)
			default:
				if q.P(1, 6) {
					g = 1 + q.N(lim-1)
				}
				if g >= lim {
					g = 1
				}
				v = g
				g++
			}
			if q.P(1, 50) {
				v = lim - 1
			}
		}
		gids = append(gids, v)
	}
	// Single-glyph fonts map nothing.
	if lim <= 1 {
		return nil, nil
	}
	return codes, gids
}

func (s *Spec) cmap() []byte {
	hdr := be16(nil, 0, len(s.Cmaps))
	var body []byte
	base := 4 + 8*len(s.Cmaps)
	prev := 0
	for i := range s.Cmaps {
		c := &s.Cmaps[i]
		o := base + len(body)
		if c.Share && i > 0 {
			o = prev
		} else {
			body = append(body, c.subtable(s.N)...)
			if i%3 == 2 {
				body = append(body, 0, 0)
			}
		}
		prev = o
		hdr = be16(hdr, c.P, c.E)
		hdr = be32(hdr, uint32(o))
	}
	return append(hdr, body...)
}

func (c *CmapSpec) subtable(nGlyphs int) []byte {
	codes, gids := c.mapping(nGlyphs)
	q := prng.New(prng.Mix(c.Seed, 22))
	lang := 0
	if c.P == 1 && q.P(1, 3) {
		lang = 1 + q.N(90)
	}
	if c.Lang != 0 {
		lang = max(c.Lang, 0)
	}
	switch c.F {
	case 0:
		d := be16(nil, 0, 262, lang)
		arr := make([]byte, 256)
		for i, cc := range codes {
			arr[cc&255] = byte(gids[i])
		}
		return append(d, arr...)
	case 6:
		first, cnt := 0, 0
		// Codes are trimmed to a window that fits.
		if len(codes) > 0 {
			first = int(codes[0])
			for _, cc := range codes {
				if int(cc)-first < min(4*len(codes)+16, 32000) && cc <= 0xffff {
					cnt = int(cc) - first + 1
				}
			}
		}
		d := be16(nil, 6, 10+2*cnt, lang, first, cnt)
		arr := make([]byte, 2*cnt)
		for i, cc := range codes {
			if k := int(cc) - first; k >= 0 && k < cnt {
				binary.BigEndian.PutUint16(arr[2*k:], uint16(gids[i]))
			}
		}
		return append(d, arr...)
	case 4:
		return c.format4(codes, gids, lang, q)
	case 12:
		type grp struct{ a, b, g uint32 }
		var gs []grp
		for i, cc := range codes {
			if k := len(gs) - 1; k >= 0 && gs[k].b+1 == cc && gs[k].g+(cc-gs[k].a) == uint32(gids[i]) && !q.P(1, 12) {
				gs[k].b = cc
				continue
			}
			gs = append(gs, grp{cc, cc, uint32(gids[i])})
		}
		d := be16(nil, 12, 0)
		d = be32(d, uint32(16+12*len(gs)), uint32(lang), uint32(len(gs)))
		for _, g := range gs {
			d = be32(d, g.a, g.b, g.g)
		}
		return d
	case 14:
		d := be16(nil, 14)
		return be32(d, 10, 0)
	case 10:
		d := be16(nil, 10, 0)
		d = be32(d, 24, 0, 65, 2)
		return be16(d, 1, 2)
	case 2:
		d := be16(nil, 2, 6+512+8, 0)
		d = append(d, make([]byte, 512+8)...)
		return d
	}
	return be16(nil, c.F, 4)
}

func (c *CmapSpec) format4(codes []uint32, gids []int, lang int, q *prng.R) []byte {
	type seg struct {
		a, b  int
		delta int
		arr   []int
	}
	var segs []seg
	style := c.Style & 3
	i := 0
	size := 0
	for i < len(codes) {
		if codes[i] > 0xfffe {
			break
		}
		arr := style == 1 || style == 2 && q.P(1, 2)
		var sg seg
		if !arr {
			j := i + 1
			for j < len(codes) && codes[j] == codes[j-1]+1 && gids[j] == gids[j-1]+1 && codes[j] < 0xffff {
				j++
			}
			sg = seg{a: int(codes[i]), b: int(codes[j-1]), delta: (gids[i] - int(codes[i])) & 0xffff}
			i = j
		} else {
			j := i + 1
			hole := 1
			if q.P(1, 2) {
				hole = 1 + q.N(4)
			}
			for j < len(codes) && int(codes[j]-codes[j-1]) <= hole && codes[j] < 0xffff && !q.P(1, 40) {
				j++
			}
			sg = seg{a: int(codes[i]), b: int(codes[j-1])}
			if q.P(1, 3) {
				sg.delta = int(q.U64() & 0xffff)
			}
			sg.arr = make([]int, sg.b-sg.a+1)
			for k := i; k < j; k++ {
				v := (gids[k] - sg.delta) & 0xffff
				if v == 0 { // 0 in the array means missing: choose delta 0 instead
					sg.delta = 0
					for m := i; m < j; m++ {
						sg.arr[int(codes[m])-sg.a] = gids[m]
					}
					break
				}
				sg.arr[int(codes[k])-sg.a] = v
			}
			i = j
		}
		size += 8 + 2*len(sg.arr)
		if size > 64000 {
			break
		}
		segs = append(segs, sg)
	}
	segs = append(segs, seg{a: 0xffff, b: 0xffff, delta: 1})
	n := len(segs)
	es, sr := 0, 2
	for 1<<(es+1) <= n {
		es++
		sr *= 2
	}
	var ends, starts, deltas, offs, arr []byte
	for k, sg := range segs {
		ends = be16(ends, sg.b)
		starts = be16(starts, sg.a)
		deltas = be16(deltas, sg.delta)
		if sg.arr == nil {
			offs = be16(offs, 0)
		} else {
			offs = be16(offs, 2*(n-k)+len(arr))
			arr = be16(arr, sg.arr...)
		}
	}
	d := be16(nil, 4, 16+8*n+len(arr), lang, 2*n, sr, es, 2*n-sr)
	d = append(d, ends...)
	d = be16(d, 0)
	d = append(d, starts...)
	d = append(d, deltas...)
	d = append(d, offs...)
	return append(d, arr...)
}

// NewSpec draws a random font description.
func NewSpec(r *prng.R) Spec {
	s := Spec{Seed: r.U64() >> 11, NHM: 1, Prep: -1, Cvt: -1, Fpgm: -1, OS2: -1}
	switch k := r.N(40); {
	case k < 6:
		s.N = 1 + r.N(4)
	case k < 30:
		s.N = 2 + r.N(30)
	case k < 38:
		s.N = 20 + r.N(120)
	default:
		s.N = 100 + r.N(400)
	}
	s.Long = r.P(1, 2)
	s.Max = prng.Pick(r, 16, 40, 40, 100)
	if r.P(1, 6) {
		s.Base = 2 * r.N(20)
	}
	if r.P(1, 60) {
		s.Big = 1 + r.N(s.N)
	}
	s.Empty = prng.Pick(r, 0, 10, 40)
	s.Comp = prng.Pick(r, 0, 15, 40, 70)
	s.Cycle = r.P(1, 15)
	if r.P(1, 60) && s.N > 1 {
		s.Wide = 2 + r.N(s.N-1)
	}
	s.NHM = 1 + r.N(s.N)
	if r.P(1, 2) {
		s.NHM = s.N
	}
	if r.P(1, 2) {
		s.Tail = r.N(s.NHM + 1)
	}
	s.NoHmtx = r.P(1, 40)
	for _, p := range []*int{&s.Prep, &s.Cvt, &s.Fpgm} {
		if r.P(1, 2) {
			*p = r.N(40)
			if r.P(1, 30) {
				*p = r.N(prng.Pick(r, 1000, 9000, 70000))
			}
		}
	}
	if r.P(2, 3) {
		s.OS2 = r.N(6)
	}
	s.Post = prng.Pick(r, 0, 2, 2, 3, 3, 2, 25)
	if r.P(1, 60) {
		s.Post = 1
		s.Max = min(s.Max, 40)
		s.N = 258
		s.NHM = 1 + r.N(258)
	}
	s.PLong = r.P(1, 10)
	s.PShare = r.P(1, 6)
	if r.P(3, 4) {
		s.Name = &NameSpec{Format: r.N(5) / 4, N: r.N(12), Tags: r.N(4), Max: 5 + r.N(20), Share: r.P(1, 3), Lit: r.P(1, 4)}
		s.Name.Odd = r.P(1, 8)
		if r.P(1, 12) {
			s.Name.Max = 400
		}
		if r.P(1, 6) {
			s.Name.TagMax = 300
		}
		if r.P(1, 40) {
			s.Name.N, s.Name.Max, s.Name.Share = 60, 3000, r.P(1, 2)
		}
	}
	s.NoCmap = r.P(1, 15)
	pes := [][2]int{{0, 3}, {1, 0}, {3, 1}, {3, 10}, {3, 0}, {0, 4}, {0, 1}, {0, 0}, {0, 6}, {3, 2}, {3, 3}, {3, 4}, {0, 5}, {1, 1}}
	used := map[[2]int]bool{}
	k := r.N(5)
	for i := 0; i < k; i++ {
		pe := pes[r.N(4)]
		if r.P(1, 4) {
			pe = pes[r.N(len(pes))]
		}
		if used[pe] {
			continue
		}
		used[pe] = true
		c := CmapSpec{P: pe[0], E: pe[1], Seed: r.U64() >> 11, N: r.N(2*s.N + 2), Style: r.N(3) + 4*r.N(2)}
		if r.P(1, 10) {
			c.N = 0
		}
		switch {
		case pe[0] == 0 && pe[1] == 5:
			c.F = 14
		case pe == [2]int{3, 10}, pe == [2]int{0, 4}, pe == [2]int{0, 6}:
			c.F = 12
		case pe[0] == 1:
			c.F = prng.Pick(r, 0, 0, 6, 4)
			if r.P(1, 8) {
				c.F = prng.Pick(r, 12, 2)
			}
		case pe[0] == 3 && pe[1] >= 2 && pe[1] <= 4:
			c.F = 4
		default:
			c.F = prng.Pick(r, 4, 4, 4, 6, 12)
			if r.P(1, 12) {
				c.F = prng.Pick(r, 0, 10)
			}
		}
		s.Cmaps = append(s.Cmaps, c)
		if pe[0] == 1 && r.P(1, 10) { // one subtable per language
			last := &s.Cmaps[len(s.Cmaps)-1]
			last.Lang = -1
			c.Seed, c.Lang = r.U64()>>11, 1+r.N(90)
			if r.P(1, 3) {
				c.F = prng.Pick(r, 0, 6, 4)
			}
			s.Cmaps = append(s.Cmaps, c)
		}
	}
	sort.SliceStable(s.Cmaps, func(i, j int) bool {
		a, b := s.Cmaps[i], s.Cmaps[j]
		return a.P < b.P || a.P == b.P && a.E < b.E
	})
	for i := 1; i < len(s.Cmaps); i++ {
		a, b := &s.Cmaps[i-1], &s.Cmaps[i]
		bmp := func(c *CmapSpec) bool {
			return c.P == 0 && c.E < 4 || c.P == 3 && c.E <= 1
		}
		if bmp(a) && bmp(b) && r.P(1, 3) {
			b.Share, b.F, b.Seed, b.N, b.Style = true, a.F, a.Seed, a.N, a.Style
		}
	}
	if r.P(1, 3) {
		s.Extra = r.N(4)
	}
	if r.P(1, 40) {
		s.Bulk = prng.Pick(r, 1023, 1024, 1025, 1+r.N(5000))
	}
	if r.P(1, 2) {
		s.Order = 1 + r.U64()>>12
	}
	if r.P(1, 4) {
		s.Gaps = r.N(4)
		s.Dirty = r.P(1, 2)
	}
	if r.P(1, 10) {
		s.Trail = r.N(3)
	}
	s.Unsort = r.P(1, 8)
	s.True = r.P(1, 20)
	s.NoPad = r.P(1, 5)
	return s
}

// NewSmall draws a small plain font.
func NewSmall(r *prng.R) Spec {
	s := NewSpec(r)
	if s.Post == 1 {
		s.Post = 3
	}
	s.N = min(s.N, 2+r.N(14))
	s.NHM = 1 + r.N(s.N)
	s.Tail = r.N(s.NHM + 1)
	s.Big, s.Wide, s.Bulk = 0, 0, 0
	s.Max = min(s.Max, 40)
	for _, p := range []*int{&s.Prep, &s.Cvt, &s.Fpgm} {
		*p = min(*p, 40)
	}
	if s.Name != nil {
		s.Name.N, s.Name.Max, s.Name.TagMax = min(s.Name.N, 6), min(s.Name.Max, 12), 0
	}
	for i := range s.Cmaps {
		s.Cmaps[i].N = min(s.Cmaps[i].N, 2*s.N)
	}
	return s
}

// RealFonts are the repository's own fonts.
var RealFonts = []string{"FreeSans.ttf", "roboto/Roboto-Regular.ttf", "roboto/Roboto-Bold.ttf", "roboto/Roboto-Italic.ttf"}

// NewHuge draws a font near the format's limits.
func NewHuge(r *prng.R) Spec {
	s := NewSpec(r)
	s.Big = 0
	if s.Post == 1 {
		s.Post = 3
	}
	switch r.N(4) {
	case 0:
		s.N, s.Max, s.Long = 65535, 12, true
		s.Comp, s.Empty = 3, 90
	case 1:
		s.N, s.Max, s.Long = 9000+r.N(4000), 20, true
	case 2:
		s.N, s.Long = 3000+r.N(2000), false
	default:
		s.N, s.Long = 2000+r.N(4000), true
		s.Big = 1 + r.N(s.N)
	}
	s.NHM = 1 + r.N(s.N)
	s.Tail = r.N(s.NHM + 1)
	for i := range s.Cmaps {
		s.Cmaps[i].N = r.N(s.N)
		if r.P(1, 2) {
			s.Cmaps[i].Style = 5 // contiguous characters, scattered glyphs
		}
	}
	return s
}

// String is a short description.
func (s Spec) String() string {
	if s.Real != "" {
		return s.Real
	}
	return fmt.Sprintf("generated(seed %d, %d glyphs)", s.Seed, s.N)
}
