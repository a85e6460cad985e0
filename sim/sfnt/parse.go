// Package sfnt is the simulator's own, independent model of TrueType files: a strict reference parser,
// a reference validator, a generator of well-formed fonts and the expected effect of every operation.
// It shares no code with the library under test.
package sfnt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
)

// Rec is a directory entry.
type Rec struct {
	Tag         string
	Sum         uint32
	Off, Length uint32
	Pos         int // file offset of the entry itself
}

// Font is the reference model of a font.
type Font struct {
	SFNT    uint32
	N       int
	Long    bool
	Head    []byte // adjustment zeroed
	Maxp    []byte
	Hhea    []byte // without numberOfHMetrics, reserved zeroed
	NHM     int
	HasHmtx bool
	Adv     []uint16
	LSB     []int16
	HasGlyf bool
	HasLoca bool
	Glyphs  [][]byte
	Loca    []int64
	Prep    []byte // nil: absent
	Cvt     []byte
	Fpgm    []byte
	Name    *Name
	OS2     []byte
	Post    []byte   // 32-byte header
	PNames  []string // glyph names; nil: none or unknown
	Cmap    *Cmap
	Recs    []Rec
}

// Name models the naming table.
type Name struct {
	Format int
	Recs   []NameRec
	Tags   [][]byte
}

// NameRec is one name record.
type NameRec struct {
	P, E, L, ID uint16
	Data        []byte
}

// Cmap models the mapping table; unsupported subtables are listed with Format only.
type Cmap struct {
	Version uint16
	Subs    []Sub
}

// Sub is one mapping subtable.
type Sub struct {
	P, E    uint16
	Format  int
	Lang    uint32
	Map     map[uint32]uint16 // code -> non-zero glyph
	Unknown bool
}

func u16(b []byte, o int) int    { return int(b[o])<<8 | int(b[o+1]) }
func u32(b []byte, o int) uint32 { return binary.BigEndian.Uint32(b[o:]) }

// Sum is the sfnt checksum.
func Sum(b []byte) uint32 {
	var s uint32
	i := 0
	for ; i+4 <= len(b); i += 4 {
		s += binary.BigEndian.Uint32(b[i:])
	}
	if i < len(b) {
		var t [4]byte
		copy(t[:], b[i:])
		s += binary.BigEndian.Uint32(t[:])
	}
	return s
}

// Directory reads the table directory.
func Directory(b []byte) ([]Rec, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file of %d bytes has no header", len(b))
	}
	n := u16(b, 4)
	if 12+16*n > len(b) {
		return nil, fmt.Errorf("directory of %d entries exceeds the file", n)
	}
	var out []Rec
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		out = append(out, Rec{string(b[o : o+4]), u32(b, o+4), u32(b, o+8), u32(b, o+12), o})
	}
	return out, nil
}

// Verdict is the reference validator: it reports why the checksums or bounds of a font file are wrong,
// or "" if everything recorded in the file is consistent.
func Verdict(b []byte) string {
	recs, err := Directory(b)
	if err != nil {
		return err.Error()
	}
	var head *Rec
	for i := range recs {
		r := &recs[i]
		if r.Length > 0 && uint64(r.Off)+uint64(r.Length) > uint64(len(b)) {
			return fmt.Sprintf("table %q runs past the end of the file", r.Tag)
		}
		if r.Tag == "head" {
			head = r
		}
	}
	if head == nil {
		return "no head table"
	}
	if head.Length < 12 {
		return "head too short"
	}
	for _, r := range recs {
		var d []byte
		if r.Length > 0 {
			d = b[r.Off : r.Off+r.Length]
		}
		if r.Tag == "head" {
			if len(d) < 12 {
				return "head too short"
			}
			d = append([]byte(nil), d...)
			copy(d[8:12], []byte{0, 0, 0, 0})
		}
		if Sum(d) != r.Sum {
			return fmt.Sprintf("checksum of table %q does not match", r.Tag)
		}
	}
	c := append([]byte(nil), b...)
	adj := u32(c, int(head.Off)+8)
	copy(c[head.Off+8:], []byte{0, 0, 0, 0})
	if 0xB1B0AFBA-Sum(c) != adj {
		return "whole-file checksum adjustment does not match"
	}
	return ""
}

// Parse reads a font. Every structural inconsistency is reported in problems; the model is nil only if
// the file is too broken to continue.
func Parse(b []byte) (f *Font, problems []string) {
	bad := func(s string, a ...any) { problems = append(problems, fmt.Sprintf(s, a...)) }
	defer func() {
		if r := recover(); r != nil {
			problems = append(problems, fmt.Sprintf("structure too short or inconsistent: %v", r))
			f = nil
		}
	}()
	recs, err := Directory(b)
	if err != nil {
		return nil, []string{err.Error()}
	}
	f = &Font{SFNT: u32(b, 0), Recs: recs}
	tab := map[string][]byte{}
	type span struct {
		lo, hi uint64
		tag    string
	}
	spans := []span{{0, uint64(12 + 16*len(recs)), "directory"}}
	for _, r := range recs {
		lo, hi := uint64(r.Off), uint64(r.Off)+uint64(r.Length)
		if hi > uint64(len(b)) {
			bad("table %q [%d,%d) lies outside the file of %d bytes", r.Tag, lo, hi, len(b))
			return nil, problems
		}
		if _, dup := tab[r.Tag]; dup {
			bad("duplicate table %q", r.Tag)
		}
		tab[r.Tag] = b[lo:hi:hi]
		if hi > lo {
			spans = append(spans, span{lo, hi, r.Tag})
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			bad("%q overlaps %q", spans[i].tag, spans[i-1].tag)
		}
	}
	if v := Verdict(b); v != "" {
		bad("%s", v)
	}
	need := func(t string, n int) []byte {
		d, ok := tab[t]
		if !ok {
			bad("required table %q missing", t)
			return nil
		}
		if len(d) < n {
			bad("table %q has %d bytes, needs %d", t, len(d), n)
			return nil
		}
		return d
	}
	head, maxp, hhea := need("head", 54), need("maxp", 32), need("hhea", 36)
	if head == nil || maxp == nil || hhea == nil {
		return nil, problems
	}
	f.Head = append([]byte(nil), head[:54]...)
	copy(f.Head[8:12], []byte{0, 0, 0, 0})
	if u32(head, 12) != 0x5F0F3CF5 {
		bad("head magic number wrong")
	}
	f.Maxp = append([]byte(nil), maxp[:32]...)
	f.N = u16(maxp, 4)
	f.Hhea = append([]byte(nil), hhea[:34]...)
	for i := 24; i < 32; i++ {
		f.Hhea[i] = 0
	}
	f.NHM = u16(hhea, 34)
	switch u16(head, 50) {
	case 0:
	case 1:
		f.Long = true
	default:
		bad("indexToLocFormat %d", u16(head, 50))
		return nil, problems
	}
	if d, ok := tab["hmtx"]; ok {
		f.HasHmtx = true
		if f.NHM > f.N {
			bad("%d horizontal metrics for %d glyphs", f.NHM, f.N)
			return nil, problems
		}
		want := 4*f.NHM + 2*(f.N-f.NHM)
		if len(d) != want {
			bad("hmtx has %d bytes, %d metrics of %d glyphs need %d", len(d), f.NHM, f.N, want)
			if len(d) < want {
				return nil, problems
			}
		}
		if f.NHM == 0 && f.N > 0 {
			bad("no horizontal metrics for %d glyphs", f.N)
		}
		var last uint16
		for i := 0; i < f.N; i++ {
			if i < f.NHM {
				last = uint16(u16(d, 4*i))
				f.LSB = append(f.LSB, int16(u16(d, 4*i+2)))
			} else {
				f.LSB = append(f.LSB, int16(u16(d, 4*f.NHM+2*(i-f.NHM))))
			}
			f.Adv = append(f.Adv, last)
		}
	}
	if d, ok := tab["loca"]; ok {
		f.HasLoca = true
		sz := 2
		if f.Long {
			sz = 4
		}
		if len(d) != sz*(f.N+1) {
			bad("loca has %d bytes, %d glyphs need %d", len(d), f.N, sz*(f.N+1))
			if len(d) < sz*(f.N+1) {
				return nil, problems
			}
		}
		for i := 0; i <= f.N; i++ {
			if f.Long {
				f.Loca = append(f.Loca, int64(u32(d, 4*i)))
			} else {
				f.Loca = append(f.Loca, 2*int64(u16(d, 2*i)))
			}
			if i > 0 && f.Loca[i] < f.Loca[i-1] {
				bad("loca decreases at glyph %d", i)
				return nil, problems
			}
		}
	} else {
		bad("required table %q missing", "loca")
	}
	if d, ok := tab["glyf"]; ok && f.HasLoca {
		f.HasGlyf = true
		if f.Loca[f.N] > int64(len(d)) {
			bad("glyph locations end at %d, glyf has %d bytes", f.Loca[f.N], len(d))
			return nil, problems
		}
		for i := 0; i < f.N; i++ {
			f.Glyphs = append(f.Glyphs, d[f.Loca[i]:f.Loca[i+1]:f.Loca[i+1]])
		}
	}
	opt := func(t string) []byte {
		d, ok := tab[t]
		if !ok {
			return nil
		}
		if d == nil {
			d = []byte{}
		}
		return append([]byte{}, d...)
	}
	f.Prep, f.Cvt, f.Fpgm = opt("prep"), opt("cvt "), opt("fpgm")
	if d, ok := tab["OS/2"]; ok {
		want := 78
		if len(d) >= 2 {
			switch v := u16(d, 0); {
			case v == 0:
			case v == 1:
				want = 86
			case v < 5:
				want = 96
			default:
				want = 100
			}
		}
		if len(d) < want {
			bad("OS/2 has %d bytes, its version needs %d", len(d), want)
			return nil, problems
		}
		f.OS2 = append([]byte{}, d[:want]...)
	}
	if d, ok := tab["post"]; ok {
		if len(d) < 32 {
			bad("post has %d bytes", len(d))
			return nil, problems
		}
		f.Post = append([]byte{}, d[:32]...)
		f.PNames = parseNames(d, f.N)
	}
	if d, ok := tab["name"]; ok {
		f.Name = parseName(d, bad)
		if f.Name == nil {
			return nil, problems
		}
	}
	if d, ok := tab["cmap"]; ok {
		f.Cmap = parseCmap(d, f.N, bad)
		if f.Cmap == nil {
			return nil, problems
		}
	}
	return f, problems
}

func parseName(d []byte, bad func(string, ...any)) *Name {
	if len(d) < 6 {
		bad("name table too short")
		return nil
	}
	n := &Name{Format: u16(d, 0)}
	cnt, so := u16(d, 2), u16(d, 4)
	pos := 6 + 12*cnt
	if pos > len(d) {
		bad("name records exceed the table")
		return nil
	}
	type ref struct{ l, o int }
	var tags []ref
	if n.Format == 1 {
		if pos+2 > len(d) {
			bad("name language tag count outside the table")
			return nil
		}
		tc := u16(d, pos)
		pos += 2
		if pos+4*tc > len(d) {
			bad("name language tags exceed the table")
			return nil
		}
		for i := 0; i < tc; i++ {
			tags = append(tags, ref{u16(d, pos), u16(d, pos+2)})
			pos += 4
		}
	} else if n.Format != 0 {
		bad("name format %d", n.Format)
		return nil
	}
	if so < pos {
		bad("name string storage at %d overlaps the records ending at %d", so, pos)
	}
	str := func(l, o int) ([]byte, bool) {
		if so+o+l > len(d) {
			bad("name string [%d,+%d) outside the table of %d bytes", so+o, l, len(d))
			return nil, false
		}
		return append([]byte{}, d[so+o:so+o+l]...), true
	}
	for i := 0; i < cnt; i++ {
		o := 6 + 12*i
		s, ok := str(u16(d, o+8), u16(d, o+10))
		if !ok {
			return nil
		}
		n.Recs = append(n.Recs, NameRec{uint16(u16(d, o)), uint16(u16(d, o+2)), uint16(u16(d, o+4)), uint16(u16(d, o+6)), s})
	}
	for _, t := range tags {
		s, ok := str(t.l, t.o)
		if !ok {
			return nil
		}
		n.Tags = append(n.Tags, s)
	}
	return n
}

func parseCmap(d []byte, nGlyphs int, bad func(string, ...any)) *Cmap {
	if len(d) < 4 {
		bad("cmap too short")
		return nil
	}
	c := &Cmap{Version: uint16(u16(d, 0))}
	n := u16(d, 2)
	if 4+8*n > len(d) {
		bad("cmap encoding records exceed the table")
		return nil
	}
	for i := 0; i < n; i++ {
		o := 4 + 8*i
		s := Sub{P: uint16(u16(d, o)), E: uint16(u16(d, o+2))}
		so := int(u32(d, o+4))
		if so+2 > len(d) || so < 4+8*n {
			bad("cmap subtable %d at %d is outside the table of %d bytes or inside its header", i, so, len(d))
			return nil
		}
		t := d[so:]
		s.Format = u16(t, 0)
		s.Map = map[uint32]uint16{}
		set := func(code uint32, gid int) {
			gid &= 0xffff
			if gid == 0 {
				return
			}
			if gid >= nGlyphs {
				bad("cmap subtable %d maps %#x to glyph %d of %d", i, code, gid, nGlyphs)
				return
			}
			s.Map[code] = uint16(gid)
		}
		short := func(need int) bool {
			if len(t) < need {
				bad("cmap subtable %d (format %d) has %d bytes, needs %d", i, s.Format, len(t), need)
				return true
			}
			return false
		}
		switch s.Format {
		case 0:
			if short(262) {
				return nil
			}
			if u16(t, 2) != 262 {
				bad("cmap format 0 length %d", u16(t, 2))
			}
			s.Lang = uint32(u16(t, 4))
			for k := 0; k < 256; k++ {
				set(uint32(k), int(t[6+k]))
			}
		case 4:
			if short(16) {
				return nil
			}
			ln := u16(t, 2)
			sc := u16(t, 6) / 2
			if short(ln) {
				return nil
			}
			if ln < 16+8*sc {
				bad("cmap format 4 length %d too small for %d segments", ln, sc)
				return nil
			}
			s.Lang = uint32(u16(t, 4))
			if sc == 0 || u16(t, 14+2*(sc-1)) != 0xffff {
				bad("cmap format 4 does not end with segment 0xFFFF")
			}
			prev := -1
			for k := 0; k < sc; k++ {
				end, start := u16(t, 14+2*k), u16(t, 16+2*sc+2*k)
				delta, ro := u16(t, 16+4*sc+2*k), u16(t, 16+6*sc+2*k)
				if start > end || start <= prev {
					bad("cmap format 4 segment %d [%#x,%#x] out of order", k, start, end)
				}
				prev = end
				for c := start; c <= end; c++ {
					if k == sc-1 && c == 0xffff {
						continue // terminal segment
					}
					g := 0
					if ro == 0 {
						g = (c + delta) & 0xffff
					} else {
						p := 16 + 6*sc + 2*k + ro + 2*(c-start)
						if p+2 > ln {
							bad("cmap format 4 range offset outside the subtable")
							return nil
						}
						if g = u16(t, p); g != 0 {
							g = (g + delta) & 0xffff
						}
					}
					set(uint32(c), g)
				}
			}
		case 6:
			if short(10) {
				return nil
			}
			first, cnt := u16(t, 6), u16(t, 8)
			if u16(t, 2) != 10+2*cnt {
				bad("cmap format 6 length %d for %d entries", u16(t, 2), cnt)
			}
			if short(10 + 2*cnt) {
				return nil
			}
			s.Lang = uint32(u16(t, 4))
			for k := 0; k < cnt; k++ {
				set(uint32(first+k), u16(t, 10+2*k))
			}
		case 12:
			if short(16) {
				return nil
			}
			ng := int(u32(t, 12))
			if int(u32(t, 4)) != 16+12*ng {
				bad("cmap format 12 length %d for %d groups", u32(t, 4), ng)
			}
			if ng > len(t) || short(16+12*ng) {
				return nil
			}
			s.Lang = u32(t, 8)
			prev := int64(-1)
			for k := 0; k < ng; k++ {
				a, e, g := u32(t, 16+12*k), u32(t, 20+12*k), u32(t, 24+12*k)
				if e < a || int64(a) <= prev {
					bad("cmap format 12 group %d [%#x,%#x] out of order", k, a, e)
					return nil
				}
				prev = int64(e)
				if e-a > 0x110000 {
					bad("cmap format 12 group %d too large", k)
					return nil
				}
				for c := a; c <= e; c++ {
					gid := int(g + (c - a))
					if gid > 0xffff {
						bad("cmap format 12 maps %#x to glyph %d", c, gid)
						break
					}
					set(c, gid)
				}
			}
		default:
			s.Unknown = true
			s.Map = nil
		}
		c.Subs = append(c.Subs, s)
	}
	return c
}

// Diff lists the differences between two models, most significant first; want's unsupported mapping
// subtables are ignored. Empty means equal.
func Diff(got, want *Font) []string {
	var out []string
	add := func(s string, a ...any) {
		if len(out) < 12 {
			out = append(out, fmt.Sprintf(s, a...))
		}
	}
	if got.N != want.N {
		add("glyph count %d, want %d", got.N, want.N)
	}
	if got.SFNT != want.SFNT {
		add("sfnt version %#x, want %#x", got.SFNT, want.SFNT)
	}
	byt := func(name string, g, w []byte) {
		if (g == nil) != (w == nil) {
			add("%s present=%v, want present=%v", name, g != nil, w != nil)
			return
		}
		if !bytes.Equal(g, w) {
			i := 0
			for i < len(g) && i < len(w) && g[i] == w[i] {
				i++
			}
			add("%s differs at byte %d (lengths %d, want %d)", name, i, len(g), len(w))
		}
	}
	byt("head", got.Head, want.Head)
	byt("maxp", got.Maxp, want.Maxp)
	byt("hhea", got.Hhea, want.Hhea)
	if got.HasHmtx != want.HasHmtx {
		add("hmtx present=%v, want %v", got.HasHmtx, want.HasHmtx)
	} else {
		for i := 0; i < len(got.Adv) && i < len(want.Adv); i++ {
			if got.Adv[i] != want.Adv[i] || got.LSB[i] != want.LSB[i] {
				add("glyph %d: advance/bearing %d/%d, want %d/%d", i, got.Adv[i], got.LSB[i], want.Adv[i], want.LSB[i])
				break
			}
		}
	}
	if got.HasGlyf != want.HasGlyf {
		add("glyf present=%v, want %v", got.HasGlyf, want.HasGlyf)
	} else {
		for i := 0; i < len(got.Glyphs) && i < len(want.Glyphs); i++ {
			if !bytes.Equal(got.Glyphs[i], want.Glyphs[i]) {
				add("glyph %d: outline data differs (%d bytes, want %d)", i, len(got.Glyphs[i]), len(want.Glyphs[i]))
				break
			}
		}
	}
	byt("prep", got.Prep, want.Prep)
	byt("cvt", got.Cvt, want.Cvt)
	byt("fpgm", got.Fpgm, want.Fpgm)
	byt("OS/2", got.OS2, want.OS2)
	byt("post", got.Post, want.Post)
	diffName(got.Name, want.Name, add)
	diffCmap(got.Cmap, want.Cmap, add)
	return out
}

func diffName(g, w *Name, add func(string, ...any)) {
	if (g == nil) != (w == nil) {
		add("name present=%v, want %v", g != nil, w != nil)
		return
	}
	if g == nil {
		return
	}
	if g.Format != w.Format || len(g.Recs) != len(w.Recs) || len(g.Tags) != len(w.Tags) {
		add("name format/records/tags %d/%d/%d, want %d/%d/%d", g.Format, len(g.Recs), len(g.Tags), w.Format, len(w.Recs), len(w.Tags))
		return
	}
	for i := range g.Recs {
		a, b := g.Recs[i], w.Recs[i]
		if a.P != b.P || a.E != b.E || a.L != b.L || a.ID != b.ID || !bytes.Equal(a.Data, b.Data) {
			add("name record %d is %d/%d/%d/%d %.20q, want %d/%d/%d/%d %.20q", i, a.P, a.E, a.L, a.ID, a.Data, b.P, b.E, b.L, b.ID, b.Data)
			return
		}
	}
	for i := range g.Tags {
		if !bytes.Equal(g.Tags[i], w.Tags[i]) {
			add("name language tag %d is %.20q, want %.20q", i, g.Tags[i], w.Tags[i])
			return
		}
	}
}

func diffCmap(g, w *Cmap, add func(string, ...any)) {
	if (g == nil) != (w == nil) {
		add("cmap present=%v, want %v", g != nil, w != nil)
		return
	}
	if g == nil {
		return
	}
	if g.Version != w.Version {
		add("cmap version %d, want %d", g.Version, w.Version)
	}
	known := func(c *Cmap) (out []Sub) {
		for _, s := range c.Subs {
			if !s.Unknown {
				out = append(out, s)
			}
		}
		return
	}
	gs, ws := known(g), known(w)
	if len(gs) != len(ws) {
		add("%d mapping subtables, want %d", len(gs), len(ws))
		return
	}
	for i := range gs {
		a, b := gs[i], ws[i]
		if a.P != b.P || a.E != b.E || a.Format != b.Format || a.Lang != b.Lang {
			add("mapping subtable %d is (%d,%d) format %d language %d, want (%d,%d) format %d language %d", i, a.P, a.E, a.Format, a.Lang, b.P, b.E, b.Format, b.Lang)
			continue
		}
		if d := DiffMap(a.Map, b.Map); d != "" {
			add("mapping subtable (%d,%d) format %d: %s", a.P, a.E, a.Format, d)
		}
	}
}

// DiffMap describes the first difference of two mappings.
func DiffMap[K uint32 | rune, V ~uint16](g, w map[K]V) string {
	best, found := K(0), false
	note := func(k K) {
		if !found || k < best {
			best, found = k, true
		}
	}
	for k, v := range g {
		if w[k] != v {
			note(k)
		}
	}
	for k, v := range w {
		if g[k] != v {
			note(k)
		}
	}
	if !found {
		return ""
	}
	return fmt.Sprintf("code %#x maps to glyph %d, want %d", best, g[best], w[best])
}

// Search reports what would mislead a reader of a written font that looks tables and characters up by binary
// search or reads tables as words: order, search fields and alignment.
func Search(b []byte) (problems []string) {
	bad := func(s string, a ...any) { problems = append(problems, fmt.Sprintf(s, a...)) }
	fields := func(what string, n, unit, sr, es, rs int) {
		if n == 0 {
			return
		}
		e := bits.Len(uint(n)) - 1
		if sr != unit<<e || es != e || rs != unit*n-unit<<e {
			bad("%s of %d entries has search fields %d/%d/%d, want %d/%d/%d", what, n, sr, es, rs, unit<<e, e, unit*n-unit<<e)
		}
	}
	recs, err := Directory(b)
	if err != nil {
		return []string{err.Error()}
	}
	fields("table directory", len(recs), 16, u16(b, 6), u16(b, 8), u16(b, 10))
	for i, r := range recs {
		if i > 0 && recs[i-1].Tag >= r.Tag {
			bad("directory entry %q follows %q", r.Tag, recs[i-1].Tag)
		}
		if r.Off%4 != 0 {
			bad("table %q starts at unaligned offset %d", r.Tag, r.Off)
		}
		if r.Tag != "cmap" || int(r.Off+r.Length) > len(b) || r.Length < 4 {
			continue
		}
		d := b[r.Off : r.Off+r.Length]
		n := u16(d, 2)
		prev := -1
		for k := 0; k < n && 12+8*k <= len(d); k++ {
			o := 4 + 8*k
			key := u16(d, o)<<16 | u16(d, o+2)
			if key < prev {
				bad("cmap encoding record %d (%d,%d) out of order", k, key>>16, key&0xffff)
			}
			prev = key
			if so := int(u32(d, o+4)); so+14 <= len(d) && u16(d, so) == 4 {
				fields(fmt.Sprintf("cmap subtable %d", k), u16(d, so+6)/2, 2, u16(d, so+8), u16(d, so+10), u16(d, so+12))
			}
		}
	}
	return problems
}

// parseNames reads the glyph names of a post table; nil if there are none or they are not well-formed.
func parseNames(d []byte, n int) []string {
	switch u32(d, 0) {
	case 0x00010000:
		if n != len(macNames) {
			return nil
		}
		return append([]string(nil), macNames...)
	case 0x00020000:
		if len(d) < 34+2*n || u16(d, 32) != n {
			return nil
		}
		var own []string
		for t := d[34+2*n:]; len(t) > 0; {
			l := int(t[0])
			if l == 0 || 1+l > len(t) {
				break
			}
			own = append(own, string(t[1:1+l]))
			t = t[1+l:]
		}
		out := []string{}
		for i := 0; i < n; i++ {
			switch x := u16(d, 34+2*i); {
			case x < 258:
				out = append(out, macNames[x])
			case x > 32767:
				out = append(out, "")
			case x-258 >= len(own):
				return nil
			default:
				out = append(out, own[x-258])
			}
		}
		return out
	case 0x00025000:
		if len(d) < 34+n || u16(d, 32) != n {
			return nil
		}
		out := []string{}
		for i := 0; i < n; i++ {
			x := i + int(int8(d[34+i]))
			if x < 0 || x >= len(macNames) {
				out = append(out, "")
				continue
			}
			out = append(out, macNames[x])
		}
		return out
	}
	return nil
}
