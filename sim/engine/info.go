package engine

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"verifsim/sfnt"
)

var (
	reTrec  = regexp.MustCompile(`^trec: present with (\d+) table records$`)
	reSize  = regexp.MustCompile(`^(.{0,4}): (\d+|\d+\.\d+) (B|kB|MB)$`)
	reHhea  = regexp.MustCompile(`numHMetrics: (\d+)`)
	reHmtx  = regexp.MustCompile(`hmetrics: (\d+), leftSideBearings: (\d+)`)
	reShort = regexp.MustCompile(`Short offsets: (\d+)`)
	reLong  = regexp.MustCompile(`Long offsets: (\d+)`)
	reGlyf  = regexp.MustCompile(`glyf table present: (\d+) descriptions \((\d+\.\d+) kB\)`)
	rePostN = regexp.MustCompile(`post table present: (\d+) numGlyphs`)
	rePost  = regexp.MustCompile(`(?m)^- post: (\d+): (.*)$`)
	reName  = regexp.MustCompile(`(?m)^- name record: (\d+): platform: (\d+), encoding: (\d+), language: (\d+), name: (\d+), length: (\d+)$`)
	reTag   = regexp.MustCompile(`(?m)^- language tag record: (\d+): length: (\d+)$`)
	reCmap  = regexp.MustCompile(`cmap version: (\d+)`)
	reCmapN = regexp.MustCompile(`cmap: encoding records: (\d+) subtables: (\d+)`)
	reSub   = regexp.MustCompile(`^cmap subtable: (\d+),(\d+),(\d+)(?:,\d+)?: runes: (\d+)$`)
	reCode  = regexp.MustCompile(`^\t(\d+) - Charcode (\d+) \(0x([0-9A-F]+)\) - rune +([0-9A-F]+)$`)
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// judgeInfo compares the reported table information with the reference model. Only what is recognised is
// judged: another presentation is not a violation. fresh: the font was just loaded, and the model is that of its
// file.
func judgeInfo(o *Obs, m *sfnt.Font, fresh bool) (class, msg string) {
	for i, t := range o.Tabs {
		if c, s := judgeTab(t, o.Info[i], m, fresh); s != "" {
			return "info-" + c, fmt.Sprintf("information on %q: %s", t, s)
		}
	}
	return "", ""
}

func judgeTab(t, s string, m *sfnt.Font, fresh bool) (string, string) {
	one := func(re *regexp.Regexp, k, want int, what string) string {
		if g := re.FindStringSubmatch(s); g != nil && atoi(g[k]) != want {
			return fmt.Sprintf("%s %s reported, the font has %d", g[k], what, want)
		}
		return ""
	}
	has := map[string]bool{"head": true, "hhea": true, "os2": m.OS2 != nil, "hmtx": m.HasHmtx, "cmap": m.Cmap != nil,
		"loca": m.HasLoca, "name": m.Name != nil, "glyf": m.HasGlyf, "post": m.Post != nil}
	if h, ok := has[t]; ok {
		if miss := strings.Contains(s, t+": missing"); h && miss {
			return "missing", "reported missing, the font has it"
		} else if !h && !miss && s != "" {
			return "present", fmt.Sprintf("the font does not have it, reported is %.60q", s)
		}
		if !h {
			return "", ""
		}
	}
	switch t {
	case "trec", "String":
		if !fresh || m.Recs == nil {
			break
		}
		lines := strings.Split(s, "\n")
		g := reTrec.FindStringSubmatch(lines[0])
		if g == nil {
			break
		}
		if atoi(g[1]) != len(m.Recs) {
			return "trec", fmt.Sprintf("%s table records reported, the file has %d", g[1], len(m.Recs))
		}
		want := map[string]uint32{}
		for _, r := range m.Recs {
			want[strings.TrimSpace(r.Tag)] = r.Length
		}
		for _, l := range lines[1:] {
			g := reSize.FindStringSubmatch(l)
			if g == nil {
				continue
			}
			w, ok := want[g[1]]
			if !ok {
				return "trec", fmt.Sprintf("table %q reported, the file has none (or it is reported twice)", g[1])
			}
			delete(want, g[1])
			v, _ := strconv.ParseFloat(g[2], 64)
			u := map[string]float64{"B": 1, "kB": 1024, "MB": 1024 * 1024}[g[3]]
			if d := math.Abs(v - float64(w)/u); d > 0.0051 {
				return "trec", fmt.Sprintf("%q reported, the table has %d bytes", l, w)
			}
		}
		if len(want) > 0 && len(want) < len(m.Recs) {
			return "trec", fmt.Sprintf("%d tables of the file are not reported", len(want))
		}
	case "hhea":
		if fresh {
			return t, one(reHhea, 1, m.NHM, "metrics")
		}
	case "hmtx":
		if g := reHmtx.FindStringSubmatch(s); g != nil && atoi(g[1])+atoi(g[2]) != m.N || fresh && g != nil && atoi(g[1]) != m.NHM {
			return t, fmt.Sprintf("%s metrics and %s side bearings reported, the font has %d glyphs (file: %d metrics)", g[1], g[2], m.N, m.NHM)
		}
	case "loca":
		a, b := m.N+1, 0
		if m.Long {
			a, b = b, a
		}
		if d := one(reShort, 1, a, "short locations"); d != "" {
			return t, d
		}
		return t, one(reLong, 1, b, "long locations")
	case "glyf":
		g := reGlyf.FindStringSubmatch(s)
		if g == nil {
			break
		}
		tot := 0
		for _, d := range m.Glyphs {
			tot += len(d)
		}
		if v, _ := strconv.ParseFloat(g[2], 64); atoi(g[1]) != m.N || math.Abs(v-float64(tot)/1024) > 0.0051 {
			return t, fmt.Sprintf("%s descriptions of %s kB reported, the font has %d of %d bytes", g[1], g[2], m.N, tot)
		}
	case "post":
		if m.PNames == nil {
			break
		}
		if d := one(rePostN, 1, m.N, "glyphs"); d != "" {
			return t, d
		}
		for _, g := range rePost.FindAllStringSubmatch(s, -1) {
			i := atoi(g[1]) - 1
			if i < 0 || i >= len(m.PNames) {
				return "post-name", fmt.Sprintf("name of glyph %d reported, the font has %d", i, len(m.PNames))
			}
			if m.PNames[i] != g[2] {
				return "post-name", fmt.Sprintf("glyph %d is reported to be named %q, its name is %q", i, g[2], m.PNames[i])
			}
		}
	case "name":
		gs := reName.FindAllStringSubmatch(s, -1)
		if len(gs) > 0 && len(gs) != len(m.Name.Recs) {
			return t, fmt.Sprintf("%d records reported, the font has %d", len(gs), len(m.Name.Recs))
		}
		for i, g := range gs {
			r := m.Name.Recs[i]
			if k := [6]int{atoi(g[1]), atoi(g[2]), atoi(g[3]), atoi(g[4]), atoi(g[5]), atoi(g[6])}; k != [6]int{i, int(r.P), int(r.E), int(r.L), int(r.ID), len(r.Data)} {
				return t, fmt.Sprintf("record %v reported, the font has platform %d encoding %d language %d name %d of %d bytes", k, r.P, r.E, r.L, r.ID, len(r.Data))
			}
		}
		ts := reTag.FindAllStringSubmatch(s, -1)
		if len(ts) > 0 && len(ts) != len(m.Name.Tags) {
			return t, fmt.Sprintf("%d language tags reported, the font has %d", len(ts), len(m.Name.Tags))
		}
		for i, g := range ts {
			if atoi(g[2]) != len(m.Name.Tags[i]) {
				return t, fmt.Sprintf("language tag %d of %s bytes reported, it has %d", i, g[2], len(m.Name.Tags[i]))
			}
		}
	case "cmap":
		return t, judgeCmapInfo(s, m, one)
	}
	return "", ""
}

func judgeCmapInfo(s string, m *sfnt.Font, one func(*regexp.Regexp, int, int, string) string) string {
	if d := one(reCmap, 1, int(m.Cmap.Version), "as version"); d != "" {
		return d
	}
	type key struct{ f, p, e int }
	subs := map[key][]*sfnt.Sub{}
	n := 0
	for i := range m.Cmap.Subs {
		u := &m.Cmap.Subs[i]
		if !u.Unknown {
			k := key{u.Format, int(u.P), int(u.E)}
			subs[k] = append(subs[k], u)
			n++
		}
	}
	if d := one(reCmapN, 2, n, "mapping subtables"); d != "" {
		return d
	}
	var cur *sfnt.Sub
	seen := map[uint16]bool{}
	done := func() string { // every glyph that characters are mapped to is reported
		if cur == nil || cur.Format != 4 && cur.Format != 12 {
			return ""
		}
		for _, c := range sortedCodes(cur) {
			if g := cur.Map[c]; c != 0 && !seen[g] {
				return fmt.Sprintf("subtable (%d,%d) format %d: no character reported for glyph %d, the font maps %#x to it", cur.P, cur.E, cur.Format, g, c)
			}
		}
		return ""
	}
	for _, l := range strings.Split(s, "\n") {
		if g := reSub.FindStringSubmatch(l); g != nil {
			if d := done(); d != "" {
				return d
			}
			k := key{atoi(g[1]), atoi(g[2]), atoi(g[3])}
			if len(subs[k]) == 0 {
				return fmt.Sprintf("subtable (%d,%d) format %d reported, the font has none", k.p, k.e, k.f)
			}
			cur, seen = nil, map[uint16]bool{}
			if len(subs[k]) == 1 {
				cur = subs[k][0]
			}
			continue
		}
		g := reCode.FindStringSubmatch(l)
		if g == nil || cur == nil {
			continue
		}
		gid, cc := atoi(g[1]), uint32(atoi(g[2]))
		if x, _ := strconv.ParseUint(g[3], 16, 32); uint32(x) != cc {
			return fmt.Sprintf("character code %d reported as %s", cc, g[3])
		}
		// The formats that list segments are reported by glyph; a glyph of several characters has one of them.
		if cur.Format != 4 && cur.Format != 12 || cc == 0 {
			continue
		}
		seen[uint16(gid)] = true
		if w := int(cur.Map[cc]); w != gid {
			return fmt.Sprintf("subtable (%d,%d) format %d: character code %#x reported for glyph %d, the font maps it to %d", cur.P, cur.E, cur.Format, cc, gid, w)
		}
		if cur.P == 0 || cur.P == 3 && (cur.E == 1 || cur.E == 10) {
			if r, _ := strconv.ParseUint(g[4], 16, 32); uint32(r) != cc {
				return fmt.Sprintf("subtable (%d,%d) format %d: character code %#x reported as character %#x", cur.P, cur.E, cur.Format, cc, r)
			}
		}
	}
	return done()
}
