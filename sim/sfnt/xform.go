package sfnt

import (
	"bytes"
	"strconv"
	"unicode"
	"unicode/utf16"

	"golang.org/x/text/encoding/charmap"
)

func indexBytes(h, n []byte) int { return bytes.Index(h, n) }

// Clone copies the model (deeply enough for the transformations below).
func (f *Font) Clone() *Font {
	g := *f
	g.Head = append([]byte(nil), f.Head...)
	g.Maxp = append([]byte(nil), f.Maxp...)
	g.Adv = append([]uint16(nil), f.Adv...)
	g.LSB = append([]int16(nil), f.LSB...)
	g.Glyphs = append([][]byte(nil), f.Glyphs...)
	if f.Post != nil {
		g.Post = append([]byte{}, f.Post...)
	}
	if f.Cmap != nil {
		c := *f.Cmap
		c.Subs = append([]Sub(nil), f.Cmap.Subs...)
		g.Cmap = &c
	}
	g.Recs = nil
	return &g
}

// Written is what a correct writer makes of the font: unsupported mapping subtables are not written and
// glyph names other than the standard set are dropped.
func (f *Font) Written() *Font {
	g := f.Clone()
	if g.Post != nil && u32(g.Post, 0) != 0x00010000 {
		copy(g.Post, []byte{0, 3, 0, 0})
		g.PNames = nil
	}
	if g.Cmap != nil {
		var subs []Sub
		for _, s := range g.Cmap.Subs {
			if !s.Unknown {
				subs = append(subs, s)
			}
		}
		g.Cmap.Subs = subs
	}
	return g
}

// First is the font reduced to its first n glyphs.
func (f *Font) First(n int) *Font {
	if n >= f.N {
		return f
	}
	g := f.Clone()
	g.N = n
	g.Maxp[4], g.Maxp[5] = byte(n>>8), byte(n)
	if g.HasHmtx {
		g.Adv, g.LSB = g.Adv[:n], g.LSB[:n]
	}
	g.NHM = min(g.NHM, n)
	if g.HasGlyf {
		g.Glyphs = g.Glyphs[:n]
	}
	if g.Post != nil && u32(g.Post, 0) == 0x00010000 {
		copy(g.Post, []byte{0, 3, 0, 0}) // no longer the standard glyph set
	}
	if g.PNames != nil {
		g.PNames = g.PNames[:n]
	}
	g.dropMappings(n)
	return g
}

func (f *Font) dropMappings(n int) {
	if f.Cmap == nil {
		return
	}
	for i := range f.Cmap.Subs {
		s := &f.Cmap.Subs[i]
		if s.Map == nil {
			continue
		}
		m := make(map[uint32]uint16, len(s.Map))
		for c, g := range s.Map {
			if int(g) < n {
				m[c] = g
			}
		}
		s.Map = m
	}
}

// Components lists the glyphs a glyph is directly composed of.
func (f *Font) Components(gid int) []int {
	if gid >= len(f.Glyphs) {
		return nil
	}
	g := f.Glyphs[gid]
	if len(g) < 10 || g[0]&0x80 == 0 {
		return nil
	}
	var out []int
	p := 10
	for p+4 <= len(g) {
		fl, c := u16(g, p), u16(g, p+2)
		out = append(out, c)
		p += 4
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		switch {
		case fl&8 != 0:
			p += 2
		case fl&0x40 != 0:
			p += 4
		case fl&0x80 != 0:
			p += 8
		}
		if fl&0x20 == 0 {
			break
		}
	}
	return out
}

// Closure is the set of glyphs needed to draw the given ones.
func (f *Font) Closure(gids []int) map[int]bool {
	need := map[int]bool{}
	todo := append([]int(nil), gids...)
	for len(todo) > 0 {
		g := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if need[g] {
			continue
		}
		need[g] = true
		if g < f.N {
			todo = append(todo, f.Components(g)...)
		}
	}
	return need
}

// Keep is the font reduced to the given glyphs and what they are composed of.
func (f *Font) Keep(gids []int) *Font {
	need := f.Closure(gids)
	top := 0
	for g := range need {
		if g > top {
			top = g
		}
	}
	n := min(top+1, f.N)
	g := f.Clone()
	for i := range g.Glyphs {
		if !need[i] {
			g.Glyphs[i] = nil
		}
	}
	if n < f.N {
		return g.First(n)
	}
	return g
}

// Prune drops the named tables.
func (f *Font) Prune(names []string) *Font {
	g := f.Clone()
	for _, n := range names {
		switch n {
		case "cmap":
			g.Cmap = nil
		case "post":
			g.Post, g.PNames = nil, nil
		case "name":
			g.Name = nil
		}
	}
	return g
}

// MinNHM is the number of metrics left when the trailing run of equal advances is stored once.
func (f *Font) MinNHM() int {
	n := f.NHM
	for n > 1 && f.Adv[n-1] == f.Adv[n-2] {
		n--
	}
	return n
}

// Optimized is the font with its metrics stored compactly.
func (f *Font) Optimized() *Font {
	g := f.Clone()
	if g.HasHmtx && g.NHM > 0 {
		g.NHM = g.MinNHM()
	}
	return g
}

// Rune decodes a character code of a subtable; false if the simulator takes no position on it.
func Rune(p, e int, code uint32) (rune, bool) {
	switch {
	case p == 0 && e != 5, p == 3 && (e == 0 || e == 1), p == 3 && e == 10:
		if code >= 0xd800 && code < 0xe000 || code > 0x10ffff {
			return 0, false
		}
		if code > 0xffff && !(p == 3 && e == 10 || p == 0 && (e == 4 || e == 6)) {
			return 0, false
		}
		return rune(code), true
	case p == 1:
		if code > 255 {
			return 0, false
		}
		return charmap.Macintosh.DecodeByte(byte(code)), true
	case p == 3 && e >= 2 && e <= 4:
		return LegacyDecode(e, code)
	}
	return 0, false
}

// RuneMap is the character mapping a subtable defines; exact is false if some code could not be judged.
func (s *Sub) RuneMap() (m map[rune]uint16, exact bool) {
	m = make(map[rune]uint16, len(s.Map))
	exact = true
	for c, g := range s.Map {
		r, ok := Rune(int(s.P), int(s.E), c)
		if !ok {
			exact = false
			continue
		}
		if _, dup := m[r]; dup {
			exact = false
		}
		m[r] = g
	}
	return m, exact
}

// Find returns the first supported subtable for a platform and encoding, and whether it is the only one.
func (f *Font) Find(p, e int) (s *Sub, unique bool) {
	if f.Cmap == nil {
		return nil, true
	}
	unique = true
	for i := range f.Cmap.Subs {
		t := &f.Cmap.Subs[i]
		if t.Unknown || int(t.P) != p || int(t.E) != e {
			continue
		}
		if s != nil {
			unique = false
			continue
		}
		s = t
	}
	return s, unique
}

// LookupOrder is the documented search order of LookupRunes.
var LookupOrder = [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}}

// Lookup maps a character to a glyph by the documented search order.
func (f *Font) Lookup(maps []map[rune]uint16, r rune) uint16 {
	for _, m := range maps {
		if g := m[r]; g != 0 {
			return g
		}
	}
	return 0
}

// LookupMaps prepares the maps for Lookup; exact is false if the outcome cannot be judged.
func (f *Font) LookupMaps() (maps []map[rune]uint16, exact bool) {
	exact = true
	for _, pe := range LookupOrder {
		s, uniq := f.Find(pe[0], pe[1])
		if s == nil {
			continue
		}
		m, ex := s.RuneMap()
		exact = exact && ex && uniq
		maps = append(maps, m)
	}
	return maps, exact
}

// Decode returns the text of a name record; false if the simulator takes no position on it.
func (n *NameRec) Decode() (string, bool) {
	var out string
	switch {
	case n.P == 1:
		if n.E != 0 {
			return "", false
		}
		var rs []rune
		for _, b := range n.Data {
			rs = append(rs, charmap.Macintosh.DecodeByte(b))
		}
		out = string(rs)
	case n.P == 0, n.P == 3 && (n.E == 0 || n.E == 1 || n.E == 10):
		if len(n.Data)%2 != 0 {
			return "", false
		}
		var us []uint16
		for i := 0; i+1 < len(n.Data); i += 2 {
			us = append(us, uint16(u16(n.Data, i)))
		}
		out = string(utf16.Decode(us))
	default:
		return "", false
	}
	for _, r := range out {
		if !unicode.IsPrint(r) && r != '\n' {
			return "", false
		}
	}
	return out, true
}

// PE renders a platform/encoding pair.
func PE(p, e int) string { return "(" + strconv.Itoa(p) + "," + strconv.Itoa(e) + ")" }
