package engine

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/unidoc/unitype"

	"verifsim/prng"
	"verifsim/sfnt"
)

// Loc is one answer about a glyph's location.
type Loc struct {
	G        int
	Off, Len int64
	Err      bool
}

// Obs is everything one query operation observed about a font.
type Obs struct {
	Runes  []rune
	GIDs   []int
	PEs    [][2]int
	Cmaps  []map[rune]uint16 // nil: no mapping returned; only non-zero glyphs
	MaxGID int
	IDs    []int
	Names  []string
	Recs   map[uint16]map[uint16]string
	Locs   []Loc
	Tabs   []string
	Info   []string
}

var infoTables = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post", "nope"}

// query describes what to ask; it depends on the font file a font came from and a seed only.
type query struct {
	Runes []rune
	PEs   [][2]int
	IDs   []int
	GIDs  []int
	Recs  bool
	Tabs  []string
}

// Query parts.
const (
	qLookup = 1 << iota
	qCmaps
	qNames
	qLocs
	qInfo
	qAll = 31
)

func makeQuery(seed uint64, root *sfnt.Font) *query {
	r := prng.New(prng.Mix(seed, 77))
	mask := int(seed>>56) & qAll
	if mask == 0 {
		mask = qAll
	}
	q := &query{}
	n := 20
	if root != nil {
		n = root.N
	}
	if mask&qLookup != 0 {
		var have []rune
		if root != nil && root.Cmap != nil && len(root.Cmap.Subs) > 0 {
			for k := 0; k < 4; k++ {
				s := &root.Cmap.Subs[r.N(len(root.Cmap.Subs))]
				codes := sortedCodes(s)
				for i := 0; i < 8 && len(codes) > 0; i++ {
					if ru, ok := sfnt.Rune(int(s.P), int(s.E), codes[r.N(len(codes))]); ok {
						have = append(have, ru)
					}
				}
			}
		}
		for i := 0; i < 6; i++ {
			have = append(have, prng.Pick(r, rune(0), 32, 65, 0xf0, 0xffff, 0xfffe, 0x10ffff, -1, rune(r.N(300)), rune(r.N(0x11000)), 0xf041))
		}
		q.Runes = have
		if r.P(1, 20) {
			q.Runes = nil
		}
	}
	if mask&qCmaps != 0 {
		q.PEs = [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}, {0, 4}}
		if root != nil && root.Cmap != nil {
			for _, s := range root.Cmap.Subs {
				q.PEs = append(q.PEs, [2]int{int(s.P), int(s.E)})
			}
		}
		q.PEs = append(q.PEs, [2]int{r.N(5), r.N(12)}, [2]int{-1, -1})
	}
	if mask&qNames != 0 {
		for i := 0; i < 9; i++ {
			q.IDs = append(q.IDs, i)
		}
		if root != nil && root.Name != nil {
			for i := 0; i < 4 && len(root.Name.Recs) > 0; i++ {
				q.IDs = append(q.IDs, int(root.Name.Recs[r.N(len(root.Name.Recs))].ID))
			}
		}
		q.IDs = append(q.IDs, -1, 65535, 65536+1, r.N(70000))
		q.Recs = true
	}
	if mask&qLocs != 0 {
		for i := 0; i < 6; i++ {
			q.GIDs = append(q.GIDs, r.N(n))
		}
		q.GIDs = append(q.GIDs, 0, n-1, n, n+1, 65535, r.Log(n), r.Log(n)+1)
		for i, g := range q.GIDs {
			q.GIDs[i] = max(0, min(g, 65535))
		}
	}
	if mask&qInfo != 0 {
		q.Tabs = infoTables
		if root != nil && root.N > 2000 {
			q.Tabs = []string{"trec", "head", "hhea", "hmtx", "glyf", "loca"}
		}
	}
	return q
}

func sortedCodes(s *sfnt.Sub) []uint32 {
	out := make([]uint32, 0, len(s.Map))
	for c := range s.Map {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// hash digests what is asked.
func (q *query) hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v|%v|%v|%v|%v|%v", q.Runes, q.PEs, q.IDs, q.Recs, q.GIDs, q.Tabs)
	return h.Sum64()
}

// ask runs the query against the real font.
func (q *query) ask(f *unitype.Font) *Obs {
	o := &Obs{MaxGID: -1}
	if q.Runes != nil || len(q.PEs) == 0 && len(q.IDs) == 0 && len(q.GIDs) == 0 && len(q.Tabs) == 0 {
		in := append([]rune(nil), q.Runes...)
		got := f.LookupRunes(in)
		o.Runes = q.Runes
		for i := range in {
			in[i] = -7
		}
		for i, g := range got {
			o.GIDs = append(o.GIDs, int(g))
			got[i] = 0xbad & 0xffff
		}
	}
	for _, pe := range q.PEs {
		m := f.GetCmap(pe[0], pe[1])
		o.PEs = append(o.PEs, pe)
		var c map[rune]uint16
		if m != nil {
			c = make(map[rune]uint16, len(m))
			for r, g := range m {
				if g != 0 {
					c[r] = uint16(g)
					if int(g) > o.MaxGID {
						o.MaxGID = int(g)
					}
				}
			}
		}
		o.Cmaps = append(o.Cmaps, c)
	}
	for _, id := range q.IDs {
		o.IDs = append(o.IDs, id)
		o.Names = append(o.Names, f.GetNameByID(id))
	}
	if q.Recs {
		m := f.GetNameRecords()
		o.Recs = map[uint16]map[uint16]string{}
		for l, ids := range m {
			c := map[uint16]string{}
			for id, s := range ids {
				c[id] = s
				ids[id] = "scribbled by the caller"
			}
			o.Recs[l] = c
			m[l] = nil
		}
	}
	for _, g := range q.GIDs {
		off, n, err := f.GetGlyphDataOffset(unitype.GlyphIndex(g))
		if err != nil {
			off, n = 0, 0
		}
		o.Locs = append(o.Locs, Loc{g, off, n, err != nil})
	}
	for _, t := range q.Tabs {
		o.Tabs = append(o.Tabs, t)
		o.Info = append(o.Info, f.TableInfo(t))
	}
	if len(q.Tabs) > 0 {
		o.Tabs = append(o.Tabs, "String")
		o.Info = append(o.Info, f.String())
	}
	return o
}

// Hash digests the observation.
func (o *Obs) Hash() uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v|%v|%v|%v|%q|%v|%v|%v", o.Runes, o.GIDs, o.PEs, o.Cmaps, o.Names, o.Recs, o.Locs, o.Info)
	return h.Sum64()
}

// diffObs describes the first difference between two answers to the same query. Parts is a mask.
func diffObs(got, want *Obs, parts int) string {
	if parts&qLookup != 0 {
		for i, r := range want.Runes {
			g := -1
			if i < len(got.GIDs) {
				g = got.GIDs[i]
			}
			w := -1
			if i < len(want.GIDs) {
				w = want.GIDs[i]
			}
			if g != w {
				return fmt.Sprintf("lookup of %#x gives glyph %d, expected %d", r, g, w)
			}
		}
	}
	if parts&qCmaps != 0 {
		for i, pe := range want.PEs {
			if i >= len(got.Cmaps) {
				break
			}
			if (got.Cmaps[i] == nil) != (want.Cmaps[i] == nil) {
				return fmt.Sprintf("mapping %v present=%v, expected %v", pe, got.Cmaps[i] != nil, want.Cmaps[i] != nil)
			}
			if d := sfnt.DiffMap(got.Cmaps[i], want.Cmaps[i]); d != "" {
				return fmt.Sprintf("mapping %v: %s", pe, d)
			}
		}
	}
	if parts&qNames != 0 {
		for i := range want.Names {
			if i < len(got.Names) && got.Names[i] != want.Names[i] {
				return fmt.Sprintf("name %d is %.40q, expected %.40q", want.IDs[i], got.Names[i], want.Names[i])
			}
		}
		if want.Recs != nil && got.Recs != nil {
			if a, b := fmt.Sprint(got.Recs), fmt.Sprint(want.Recs); a != b {
				return "name records differ: " + firstDiff(a, b)
			}
		}
	}
	if parts&qLocs != 0 {
		for i := range want.Locs {
			if i >= len(got.Locs) {
				break
			}
			a, b := got.Locs[i], want.Locs[i]
			if a != b {
				return fmt.Sprintf("location of glyph %d is %d+%d (error %v), expected %d+%d (error %v)", b.G, a.Off, a.Len, a.Err, b.Off, b.Len, b.Err)
			}
		}
	}
	if parts&qLocLen != 0 {
		for i := range want.Locs {
			if i >= len(got.Locs) {
				break
			}
			a, b := got.Locs[i], want.Locs[i]
			if a.Err != b.Err || a.Len != b.Len {
				return fmt.Sprintf("glyph %d has %d bytes (error %v), expected %d (error %v)", b.G, a.Len, a.Err, b.Len, b.Err)
			}
		}
	}
	if parts&qInfo != 0 {
		for i := range want.Info {
			if i < len(got.Info) && got.Info[i] != want.Info[i] {
				return fmt.Sprintf("information about %s differs: %s", want.Tabs[i], firstDiff(got.Info[i], want.Info[i]))
			}
		}
	}
	return ""
}

const qLocLen = 64

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo := max(0, i-20)
		if lo > len(s) {
			return ""
		}
		return s[lo:min(len(s), i+40)]
	}
	return fmt.Sprintf("%q, expected %q", cut(a), cut(b))
}

// judgeObs compares answers with the reference model. fresh: the font was loaded from a file with these
// exact glyph locations.
func judgeObs(o *Obs, m *sfnt.Font, fresh bool) (class, msg string) {
	lim := func(g int) bool { return g >= 0 && (g < m.N || g == 0) }
	if o.GIDs != nil || o.Runes != nil {
		if len(o.GIDs) != len(o.Runes) {
			return "lookup", fmt.Sprintf("lookup of %d characters gives %d glyphs", len(o.Runes), len(o.GIDs))
		}
		maps, exact := m.LookupMaps()
		for i, r := range o.Runes {
			if !lim(o.GIDs[i]) {
				return "lookup-range", fmt.Sprintf("lookup of %#x names glyph %d, the font has %d", r, o.GIDs[i], m.N)
			}
			if exact {
				if w := int(m.Lookup(maps, r)); w != o.GIDs[i] {
					return "lookup", fmt.Sprintf("lookup of %#x gives glyph %d, the font's tables say %d", r, o.GIDs[i], w)
				}
			}
		}
	}
	for i, pe := range o.PEs {
		got := o.Cmaps[i]
		for r, g := range got {
			if !lim(int(g)) {
				return "map-range", fmt.Sprintf("mapping %v sends %#x to glyph %d, the font has %d", pe, r, g, m.N)
			}
		}
		s, uniq := m.Find(pe[0], pe[1])
		if s == nil {
			if got != nil {
				return "map-ghost", fmt.Sprintf("mapping %v returned, the font has none", pe)
			}
			continue
		}
		if got == nil {
			return "map-missing", fmt.Sprintf("mapping %v not returned, the font has one (format %d)", pe, s.Format)
		}
		if !uniq { // one of several, which differ in language
			one := false
			for i := range m.Cmap.Subs {
				if s := &m.Cmap.Subs[i]; int(s.P) == pe[0] && int(s.E) == pe[1] && !s.Unknown {
					want, exact := s.RuneMap()
					one = one || !exact || sfnt.DiffMap(got, want) == ""
				}
			}
			if !one {
				return "map", fmt.Sprintf("mapping %v is none of the font's mappings of that encoding", pe)
			}
			continue
		}
		want, exact := s.RuneMap()
		if !exact {
			continue
		}
		if d := sfnt.DiffMap(got, want); d != "" {
			return "map", fmt.Sprintf("mapping %v (format %d): %s", pe, s.Format, d)
		}
	}
	for i, id := range o.IDs {
		want, known := "", true
		if m.Name != nil {
			for k := range m.Name.Recs {
				if int(m.Name.Recs[k].ID) == id {
					want, known = m.Name.Recs[k].Decode()
					break
				}
			}
		}
		if known && o.Names[i] != want {
			return "name", fmt.Sprintf("name %d is %.40q, the font records %.40q", id, o.Names[i], want)
		}
	}
	if o.Recs != nil {
		type key struct{ l, id uint16 }
		want := map[key][]string{}
		unk := map[key]bool{}
		if m.Name != nil {
			for k := range m.Name.Recs {
				n := &m.Name.Recs[k]
				s, ok := n.Decode()
				kk := key{n.L, n.ID}
				want[kk] = append(want[kk], s)
				if !ok {
					unk[kk] = true
				}
			}
		}
		cnt := 0
		for l, ids := range o.Recs {
			for id, s := range ids {
				cnt++
				kk := key{l, id}
				w, ok := want[kk]
				if !ok {
					return "recs", fmt.Sprintf("name record language %d id %d returned, the font has none", l, id)
				}
				if unk[kk] {
					continue
				}
				hit := false
				for _, x := range w {
					hit = hit || x == s
				}
				if !hit {
					return "recs", fmt.Sprintf("name record language %d id %d is %.40q, the font records %.60q", l, id, s, strings.Join(w, " / "))
				}
			}
		}
		if cnt != len(want) {
			return "recs", fmt.Sprintf("%d name records returned, the font has %d distinct ones", cnt, len(want))
		}
	}
	for _, l := range o.Locs {
		if l.G >= m.N || !m.HasLoca {
			if !l.Err {
				return "loc-range", fmt.Sprintf("location of glyph %d returned, the font has %d glyphs (locations present: %v)", l.G, m.N, m.HasLoca)
			}
			continue
		}
		if l.Err {
			return "loc", fmt.Sprintf("no location for glyph %d of %d", l.G, m.N)
		}
		want := int64(0)
		if m.HasGlyf {
			want = int64(len(m.Glyphs[l.G]))
		}
		if l.Len != want {
			return "loc", fmt.Sprintf("glyph %d is said to have %d bytes, it has %d", l.G, l.Len, want)
		}
		if fresh && l.Off != m.Loca[l.G] {
			return "loc", fmt.Sprintf("glyph %d is said to start at %d, it starts at %d", l.G, l.Off, m.Loca[l.G])
		}
	}
	// Consecutive glyphs follow each other.
	byG := map[int]Loc{}
	for _, l := range o.Locs {
		if !l.Err {
			byG[l.G] = l
		}
	}
	for _, l := range o.Locs {
		g := l.G
		if n, ok := byG[g+1]; ok && !l.Err && l.Off+l.Len != n.Off {
			return "loc", fmt.Sprintf("glyph %d ends at %d, glyph %d starts at %d", g, l.Off+l.Len, g+1, n.Off)
		}
	}
	return "", ""
}
