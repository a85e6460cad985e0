package engine

import (
	"encoding/binary"
	"sort"

	"verifsim/prng"
	"verifsim/rt"
	"verifsim/sfnt"
	"verifsim/simio"
	"verifsim/simos"
)

// Props are the properties the library simulation decides.
var Props = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C21"}

// Gen draws the plan of one run. It is a pure function of its arguments and the code under test (fault
// positions are chosen by probing a fault-free execution).
func Gen(prop string, seed uint64) *Plan {
	g := &gen{r: prng.New(prng.MixS(seed, prop)), p: &Plan{Prop: prop, Seed: seed & (1<<53 - 1)}}
	g.p.EnvSeed = g.u53()
	// Whether the run happens in a process that has just started or in one that has done other work before.
	c := prng.New(prng.Mix(seed, 0xc01d))
	switch prop {
	case "C12":
		g.p.Cold = c.P(3, 4)
	case "C09", "C11":
		g.p.Cold = c.P(1, 4)
	default:
		g.p.Cold = c.P(1, 2)
	}
	switch prop {
	case "C01", "C02", "C10", "C16", "C15", "C09", "C04", "C21":
		g.history()
	case "C03":
		g.delivery()
	case "C05":
		g.chunks()
	case "C06":
		g.sources()
	case "C07":
		g.hostile()
	case "C08":
		g.validity()
	case "C11":
		g.determinism()
	case "C12":
		g.concurrent()
	case "C13":
		g.crashing()
	case "C14":
		g.filework()
	case "C17", "C20":
		g.commandLine()
	default:
		panic("engine: no generator for " + prop)
	}
	return g.p
}

type gen struct {
	r      *prng.R
	p      *Plan
	models []*sfnt.Font
	sizes  []int
	bytes  [][]byte
	// Symbolic registers.
	regs  map[int]*sreg
	files map[string]*sreg
	nfile int
	// Arguments used before.
	pastRunes  [][]rune
	pastGlyphs [][]int
}

// sreg is what the generator believes about a register.
type sreg struct {
	font int
	n    int // approximate number of glyphs
}

func (g *gen) u53() uint64 { return g.r.U64() >> 11 }

// addFont adds a well-formed font to the plan.
func (g *gen) addFont(s sfnt.Spec) int { return g.addSrc(FontSrc{Spec: s}) }

func (g *gen) addSrc(f FontSrc) int {
	g.p.Fonts = append(g.p.Fonts, f)
	b := f.Bytes()
	g.bytes = append(g.bytes, b)
	g.sizes = append(g.sizes, len(b))
	var m *sfnt.Font
	if len(f.Muts) == 0 && f.Raw == nil {
		m, _ = sfnt.Parse(b)
	}
	g.models = append(g.models, m)
	return len(g.p.Fonts) - 1
}

// spec draws a font: mostly generated ones of every layout, sometimes a real one or one near the limits.
func (g *gen) spec(small bool) sfnt.Spec {
	r := g.r
	if (g.p.Prop == "C21" || g.p.Prop == "C08") && r.P(1, 100) {
		s := sfnt.NewSpec(r)
		s.Bulk = prng.Pick(r, 1<<20-1, 1<<20, 1<<20+1, 1<<20-48000+r.N(48000), 1<<20+r.N(1<<19))
		return s
	}
	switch {
	case small && r.P(2, 3):
		return sfnt.NewSmall(r)
	case !small && r.P(1, 40):
		return sfnt.Spec{Real: sfnt.RealFonts[r.N(len(sfnt.RealFonts))]}
	case !small && r.P(1, 30):
		return sfnt.NewHuge(r)
	case r.P(1, 5):
		return sfnt.NewSmall(r)
	}
	return sfnt.NewSpec(r)
}

func (g *gen) live() []int {
	var out []int
	for k := range g.regs {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (g *gen) pick() (int, *sreg) {
	l := g.live()
	if len(l) == 0 {
		return -1, nil
	}
	k := l[g.r.N(len(l))]
	return k, g.regs[k]
}

// slot picks a result register, usually a free one.
func (g *gen) slot() int {
	if len(g.regs) < 6 && g.r.P(4, 5) {
		for k := 0; ; k++ {
			if g.regs[k] == nil {
				return k
			}
		}
	}
	k, _ := g.pick()
	if k < 0 {
		k = 0
	}
	return k
}

func (g *gen) srcSpec() *simio.SrcSpec {
	return &simio.SrcSpec{Policy: prng.Pick(g.r, "one", "rand", "empty", "eofdata", "mix", "mix", "rand"), Seed: g.u53()}
}

func (g *gen) newFile() string {
	g.nfile++
	return []string{"a.ttf", "b.ttf", "out/c.ttf", "d.ttf", "e.ttf", "f.ttf"}[(g.nfile-1)%6]
}

func (g *gen) loadOp(f int) Op {
	r := g.r
	n := 20
	if m := g.models[f]; m != nil {
		n = m.N
	}
	k := g.slot()
	g.regs[k] = &sreg{font: f, n: n}
	switch r.N(4) {
	case 0:
		return Op{K: "load", R: k, F: f, Via: "stream", Src: g.srcSpec()}
	case 1:
		name := "font" + string(rune('0'+f)) + ".ttf"
		if s := g.files[name]; s != nil && s.font == f && s.n == -1 {
			{
				return Op{K: "load", R: k, Via: "file", File: name}
			}
		}
	}
	return Op{K: "load", R: k, F: f, Via: "mem"}
}

// fontFiles puts every font of the plan on the simulated disk.
func (g *gen) fontFiles() {
	for i := range g.p.Fonts {
		name := "font" + string(rune('0'+i)) + ".ttf"
		g.p.Files = append(g.p.Files, FileInit{Name: name, Font: i})
	}
}

func (g *gen) firstN(n int) int {
	r := g.r
	return prng.Pick(r, 0, 1, n-1, n, n+1, r.N(n+2), r.N(n+2), 1+r.Log(n+1), 2*n, n/2)
}

func (g *gen) glyphs(s *sreg) (out []int) {
	r := g.r
	k := prng.Pick(r, 0, 1, 1, 2, 3, 5, 1+r.N(10), r.Log(s.n+1))
	if k > 400 {
		k = 400
	}
	if len(g.pastGlyphs) > 0 && r.P(1, 6) {
		return append([]int(nil), g.pastGlyphs[r.N(len(g.pastGlyphs))]...)
	}
	defer func() { g.pastGlyphs = append(g.pastGlyphs, out) }()
	m := g.models[s.font]
	for i := 0; i < k; i++ {
		v := r.N(s.n + 1)
		switch {
		case r.P(1, 30):
			v = prng.Pick(r, s.n, s.n+1, 65535, 60000, s.n-1)
		case m != nil && m.HasGlyf && r.P(1, 4):
			// Prefer a composite.
			for t := 0; t < 12; t++ {
				c := r.N(m.N)
				if len(m.Glyphs[c]) > 2 && m.Glyphs[c][0]&0x80 != 0 {
					v = c
					break
				}
			}
		case len(out) > 0 && r.P(1, 10):
			v = out[r.N(len(out))]
		}
		out = append(out, v&0xffff)
	}
	return out
}

func (g *gen) runes(s *sreg) (out []rune) {
	r := g.r
	if len(g.pastRunes) > 0 && r.P(1, 5) { // the same characters of another font
		return append([]rune(nil), g.pastRunes[r.N(len(g.pastRunes))]...)
	}
	defer func() { g.pastRunes = append(g.pastRunes, out) }()
	m := g.models[s.font]
	k := prng.Pick(r, 0, 1, 2, 3, 5, 12, r.N(40))
	for i := 0; i < k; i++ {
		c := rune(prng.Pick(r, 0, 32, 65, 0xf041, 0xffff, 0x10000, r.N(300), r.N(0x11000)))
		if m != nil && m.Cmap != nil && len(m.Cmap.Subs) > 0 && r.P(5, 6) {
			sub := &m.Cmap.Subs[r.N(len(m.Cmap.Subs))]
			if codes := sortedCodes(sub); len(codes) > 0 {
				if ru, ok := sfnt.Rune(int(sub.P), int(sub.E), codes[r.N(len(codes))]); ok {
					c = ru
				}
			}
		}
		out = append(out, c)
	}
	return out
}

func (g *gen) pruneNames() []string {
	r := g.r
	var out []string
	for i := 0; i < 1+r.N(3); i++ {
		out = append(out, prng.Pick(r, "cmap", "post", "name", "cmap", "post", "name", "glyf", "xxxx", "", "CMAP", "head",
			prng.Pick(r, "OS/2", "os2", "prep", "fpgm", "cvt", "cvt ", "hmtx", "hhea", "loca", "maxp", "trec", "Post", "name ", " cmap", "names", "cmapx", "post\x00")))
	}
	return out
}

// weights of operations in a history.
type weights struct {
	load, loadw, first, keep, keepr, prune, opt, reload, write, writef, q, restart, valid, drop, badw, badl int
}

func (g *gen) step(w weights) []Op {
	r := g.r
	tot := w.load + w.loadw + w.first + w.keep + w.keepr + w.prune + w.opt + w.reload + w.write + w.writef + w.q + w.restart + w.valid + w.drop + w.badw + w.badl
	k := r.N(tot)
	take := func(n int) bool {
		if k < n {
			k = 1 << 30
			return true
		}
		k -= n
		return false
	}
	if len(g.regs) == 0 || take(w.load) {
		return []Op{g.loadOp(r.N(len(g.p.Fonts)))}
	}
	a, s := g.pick()
	res := func(n int) int {
		k := g.slot()
		g.regs[k] = &sreg{font: s.font, n: n}
		return k
	}
	switch {
	case take(w.loadw):
		var names []string
		for n, f := range g.files {
			if f != nil && f.n > 0 {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			return nil
		}
		sort.Strings(names)
		n := names[r.N(len(names))]
		k := g.slot()
		g.regs[k] = &sreg{font: g.files[n].font, n: g.files[n].n}
		return []Op{{K: "load", R: k, Via: "file", File: n}}
	case take(w.first):
		n := g.firstN(s.n)
		return []Op{{K: "first", A: a, R: res(max(1, min(n, s.n))), N: max(0, n)}}
	case take(w.keep):
		gs := g.glyphs(s)
		top := 0
		for _, v := range gs {
			if v < s.n {
				top = max(top, v)
			}
		}
		return []Op{{K: "keep", A: a, R: res(top + 1), G: gs}}
	case take(w.keepr):
		return []Op{{K: "keepr", A: a, R: res(s.n), S: g.runes(s)}}
	case take(w.prune):
		return []Op{{K: "prune", A: a, T: g.pruneNames()}}
	case take(w.opt):
		return []Op{{K: "opt", A: a}}
	case take(w.reload):
		op := Op{K: "reload", A: a, R: res(s.n)}
		if r.P(1, 2) {
			op.Src = g.srcSpec()
		}
		return []Op{op}
	case take(w.write):
		return []Op{{K: "write", A: a}}
	case take(w.writef):
		n := g.newFile()
		g.files[n] = &sreg{font: s.font, n: s.n}
		return []Op{{K: "writef", A: a, File: n}}
	case take(w.q):
		return []Op{{K: "q", A: a, Q: g.qseed()}}
	case take(w.restart):
		g.regs = map[int]*sreg{}
		return []Op{{K: "restart"}}
	case take(w.valid):
		if r.P(1, 2) {
			return []Op{{K: "valid", Via: "mem", F: r.N(len(g.p.Fonts))}}
		}
		return []Op{{K: "valid", Via: "file", File: prng.Pick(r, "a.ttf", "b.ttf", "font0.ttf", "missing.ttf")}}
	case take(w.drop):
		delete(g.regs, a)
		return []Op{{K: "drop", A: a}}
	case take(w.badw):
		// A write that fails part-way.
		if r.P(1, 3) {
			n := g.newFile()
			delete(g.files, n)
			return []Op{{K: "writef", A: a, File: n, DF: []simos.Fault{g.diskWriteFault(g.sizes[s.font])}}}
		}
		return []Op{{K: "write", A: a, Sink: g.sinkFault(g.sizes[s.font])}}
	case take(w.badl):
		// A load that fails part-way; its register is lost.
		f := r.N(len(g.p.Fonts))
		k := g.slot()
		delete(g.regs, k)
		src := g.srcSpec()
		src.Faults = []simio.Fault{g.srcFault(g.sizes[f], 60, 14)}
		return []Op{{K: "load", R: k, F: f, Via: "stream", Src: src}}
	}
	return nil
}

func (g *gen) pos(size int) int64 {
	r := g.r
	return int64(prng.Pick(r, 0, 1, 4, 12, size-1, size-2, size/2, r.N(size+1), r.N(size+1), r.N(size+1), r.Log(size+1)))
}

func (g *gen) sinkFault(size int) *simio.SinkSpec {
	s := &simio.SinkSpec{Kind: prng.Pick(g.r, "err", "err", "short", "late"), At: max(0, g.pos(size)), Once: g.r.P(1, 2)}
	if g.r.P(1, 2) {
		s.Err = prng.Pick(g.r, "short", "ueof", "eof", "closed", "noprog", "buffer", "timeout", "eintr", "eagain", "nospc")
	}
	return s
}

func (g *gen) diskWriteFault(size int) simos.Fault {
	f := g.diskWriteFaultKind(size)
	if g.r.P(1, 2) {
		switch f.Kind {
		case "create":
			f.Err = prng.Pick(g.r, "ENOENT", "EMFILE", "EROFS", "EISDIR", "EIO", "ENOSPC")
		case "close":
			f.Err = prng.Pick(g.r, "EINTR", "EDQUOT", "ENOSPC")
		case "write", "enospc", "sync":
			f.Err = prng.Pick(g.r, "EDQUOT", "EFBIG", "ESTALE", "EAGAIN", "EPERM")
		}
	}
	return f
}

func (g *gen) diskWriteFaultKind(size int) simos.Fault {
	r := g.r
	switch r.N(7) {
	case 0:
		return simos.Fault{Kind: "create", Nth: 1, Once: r.P(1, 2)}
	case 1:
		return simos.Fault{Kind: "close", Nth: 1, Lose: r.P(1, 2)}
	case 2:
		return simos.Fault{Kind: "write", Nth: 1 + r.N(2)}
	case 3:
		return simos.Fault{Kind: prng.Pick(r, "sync", "rename", "stat", "remove"), Nth: 1}
	case 4:
		return simos.Fault{Kind: "write", At: max(0, g.pos(size)), Once: r.P(1, 3)}
	}
	return simos.Fault{Kind: "enospc", At: max(0, g.pos(size)), Once: r.P(1, 6)}
}

func (g *gen) diskReadFault(size, reads, seeks int) simos.Fault {
	f := g.diskReadFaultKind(size, reads, seeks)
	if g.r.P(1, 2) {
		switch f.Kind {
		case "open":
			f.Err = prng.Pick(g.r, "ENOENT", "EMFILE", "EIO")
		case "read":
			f.Err = prng.Pick(g.r, "ESTALE", "EISDIR", "EAGAIN")
		}
	}
	return f
}

func (g *gen) diskReadFaultKind(size, reads, seeks int) simos.Fault {
	r := g.r
	switch r.N(6) {
	case 0:
		return simos.Fault{Kind: "open", Nth: 1}
	case 1:
		return simos.Fault{Kind: "read", Nth: 1 + r.N(max(1, reads)), Once: r.P(1, 2)}
	case 2:
		return simos.Fault{Kind: "seek", Nth: 1 + r.N(max(1, seeks)), Once: r.P(1, 2)}
	case 3:
		return simos.Fault{Kind: "eof", At: max(0, g.pos(size)), Once: r.P(1, 4)}
	case 4:
		return simos.Fault{Kind: "close", Nth: 1}
	}
	return simos.Fault{Kind: "read", At: max(0, g.pos(size)), Once: r.P(1, 3)}
}

func (g *gen) srcFault(size, reads, seeks int) simio.Fault {
	f := g.srcFaultKind(size, reads, seeks)
	if f.Kind != "eof" && g.r.P(1, 2) {
		f.Err = prng.Pick(g.r, "ueof", "closed", "noprog", "buffer", "timeout", "eintr", "eagain")
	}
	return f
}

func (g *gen) srcFaultKind(size, reads, seeks int) simio.Fault {
	r := g.r
	switch r.N(5) {
	case 0:
		return simio.Fault{Kind: "nread", Nth: 1 + r.N(max(1, reads)), Once: r.P(1, 2)}
	case 1:
		return simio.Fault{Kind: "nseek", Nth: 1 + r.N(max(1, seeks)), Once: r.P(1, 2)}
	case 2:
		return simio.Fault{Kind: "eof", At: max(0, g.pos(size)), Once: r.P(1, 4)}
	}
	return simio.Fault{Kind: "read", At: max(0, g.pos(size)), Once: r.P(1, 3)}
}

func (g *gen) reset() { g.regs, g.files = map[int]*sreg{}, map[string]*sreg{} }

// history: chains of operations, restarts and failing writes on intact fonts.
func (g *gen) history() {
	r := g.r
	g.reset()
	nf := 1
	if r.P(1, 4) {
		nf = 2
	}
	for i := 0; i < nf; i++ {
		g.addFont(g.spec(false))
	}
	g.fontFiles()
	for i := range g.p.Fonts {
		g.files[g.p.Files[i].Name] = &sreg{font: i, n: -1}
	}
	if r.P(1, 4) {
		g.p.Chunk = g.u53()
	}
	if r.P(1, 2) {
		g.p.MapSeed = g.u53()
	}
	if r.P(1, 8) {
		g.p.Log = r.N(5)
	}
	if r.P(1, 10) {
		g.p.Files = append(g.p.Files, FileInit{Name: "a.ttf", Font: -1, Len: r.N(20000), Seed: g.u53()})
	}
	var w weights
	end := []string{"write"}
	switch g.p.Prop {
	case "C01":
		w = weights{load: 2, loadw: 3, first: 1, keep: 1, keepr: 1, prune: 1, opt: 2, reload: 2, write: 3, writef: 3, restart: 1, badw: 1}
	case "C02":
		w = weights{load: 2, loadw: 2, first: 3, keep: 3, keepr: 1, prune: 2, opt: 2, reload: 2, write: 3, writef: 1, restart: 1, badw: 2}
	case "C04":
		w = weights{load: 2, first: 2, keep: 2, keepr: 1, prune: 1, opt: 1, reload: 1, write: 5, writef: 2, q: 5, badw: 6}
		end = []string{"q", "write", "q", "write"}
	case "C09":
		w = weights{load: 2, first: 5, keep: 5, keepr: 2, prune: 3, opt: 3, reload: 1, write: 2, q: 3, drop: 1, badw: 1, badl: 1}
	case "C10":
		w = weights{load: 1, first: 6, keep: 7, keepr: 4, prune: 1, opt: 2, reload: 2, write: 2, q: 2, badw: 1, writef: 1, loadw: 1, restart: 1}
		end = []string{"q", "write"}
	case "C15":
		w = weights{load: 2, first: 3, keep: 3, keepr: 1, prune: 1, opt: 1, reload: 2, write: 1, q: 6, badw: 1, writef: 1, loadw: 1, restart: 1}
		end = []string{"q"}
	case "C21":
		w = weights{load: 2, loadw: 1, first: 3, keep: 3, keepr: 1, prune: 2, opt: 2, reload: 2, write: 1, q: 7, badw: 1, writef: 1, restart: 1}
		end = []string{"q"}
	case "C16":
		w = weights{load: 1, first: 2, keep: 2, keepr: 1, prune: 5, opt: 5, reload: 2, write: 2, q: 2, badw: 1, writef: 1, loadw: 1, restart: 1}
		end = []string{"q", "write"}
	}
	ops := []Op{g.loadOp(0)}
	if nf == 2 && r.P(1, 2) {
		ops = append(ops, g.loadOp(1))
	}
	n := 1 + r.N(8)
	if r.P(1, 12) {
		n += r.N(12)
	}
	if g.p.Fonts[0].Spec.Real != "" || g.p.Fonts[0].Spec.N > 1500 {
		n = min(n, 4)
	}
	for i := 0; i < n; i++ {
		ops = append(ops, g.step(w)...)
	}
	// Finally everything still alive is examined.
	for _, k := range g.live() {
		for _, e := range end {
			op := Op{K: e, A: k}
			if e == "q" {
				op.Q = g.qseed()
			}
			ops = append(ops, op)
		}
	}
	if g.p.Prop == "C09" {
		for _, k := range g.live() {
			ops = append(ops, Op{K: "q", A: k, Q: g.u53()})
		}
	}
	if r.P(1, 3) {
		for _, k := range g.live() {
			n := g.newFile()
			ops = append(ops, Op{K: "writef", A: k, File: n}, Op{K: "load", R: k, Via: "file", File: n}, Op{K: end[0], A: k, Q: g.qseed()})
			break
		}
	}
	g.p.Pre = ops
}

// derived makes a font in register 0, sometimes a derived one.
func (g *gen) derived(f int) []Op {
	r := g.r
	ops := []Op{{K: "load", R: 0, F: f, Via: "mem"}}
	n := 20
	if m := g.models[f]; m != nil {
		n = m.N
	}
	g.regs[0] = &sreg{font: f, n: n}
	switch r.N(6) {
	case 0:
		ops = append(ops, Op{K: "first", A: 0, R: 0, N: max(0, g.firstN(n))})
	case 1:
		ops = append(ops, Op{K: "keep", A: 0, R: 0, G: g.glyphs(g.regs[0])})
	case 2:
		ops = append(ops, Op{K: "opt", A: 0})
	case 3:
		ops = append(ops, Op{K: "prune", A: 0, T: g.pruneNames()})
	}
	return ops
}

// probe executes the plan as it stands and returns the record.
func (g *gen) probe() []*Event {
	q := *g.p
	return Probe(&q).Events
}

// delivery (C03): writes to failing destinations.
func (g *gen) delivery() {
	r := g.r
	g.reset()
	f := g.addFont(g.spec(false))
	ops := g.derived(f)
	g.p.Pre = append(append([]Op{}, ops...), Op{K: "write"})
	ev := g.probe()
	size := len(ev[len(ev)-1].Out)
	if size == 0 {
		size = g.sizes[f]
	}
	g.p.Files = []FileInit{{Name: "old.ttf", Font: -1, Len: prng.Pick(r, 0, 1, size/2, size, size+1, size+1000, 2*size), Seed: g.u53()}, {Name: "bystander", Font: 0}}
	if r.P(1, 3) {
		g.p.Files = append(g.p.Files, FileInit{Name: "font.ttf", Font: 0})
	}
	k := 1 + r.N(5)
	for i := 0; i < k; i++ {
		if r.P(1, 2) {
			op := Op{K: "write"}
			if r.P(4, 5) {
				op.Sink = g.sinkFault(size)
			}
			ops = append(ops, op)
			continue
		}
		op := Op{K: "writef", File: prng.Pick(r, "old.ttf", "new.ttf", "font.ttf", "./old.ttf")}
		if r.P(4, 5) {
			op.DF = []simos.Fault{g.diskWriteFault(size)}
			if r.P(1, 6) {
				op.DF = append(op.DF, g.diskWriteFault(size))
			}
		}
		ops = append(ops, op)
	}
	if r.P(1, 2) {
		ops = append(ops, Op{K: "writef", File: "old.ttf"})
	} else {
		ops = append(ops, Op{K: "write"})
	}
	g.p.Pre = ops
}

// damage draws alterations of a font file.
func (g *gen) damage(b []byte, hostile bool) []Mut {
	r := g.r
	recs, _ := sfnt.Directory(b)
	var muts []Mut
	k := prng.Pick(r, 1, 1, 1, 2, 3)
	if hostile {
		k = prng.Pick(r, 1, 1, 2, 2, 3, 5)
		if r.P(1, 50) {
			muts = append(muts, Mut{K: "names", V: g.u53()})
		}
		if r.P(1, 40) && len(recs) > 0 {
			// A table recorded as shorter than its own header, with checksums to match.
			t := prng.Pick(r, "head", "head", "maxp", "hhea", "OS/2", "post", "name", "cmap", recs[r.N(len(recs))].Tag)
			return append(muts, Mut{K: "dir", T: t, F: 3, V: uint64(r.N(prng.Pick(r, 12, 13, 40)))}, Mut{K: "fix", F: 3})
		}
	}
	for i := 0; i < k; i++ {
		var tag string
		var tlen int
		if len(recs) > 0 {
			rec := recs[r.N(len(recs))]
			if hostile && r.P(1, 3) {
				want := prng.Pick(r, "cmap", "cmap", "name", "post", "glyf", "loca", "maxp", "head", "hhea", "hmtx", "OS/2")
				for _, q := range recs {
					if q.Tag == want {
						rec = q
					}
				}
			}
			tag, tlen = rec.Tag, int(rec.Length)
		}
		switch c := r.N(14); {
		case c < 2:
			muts = append(muts, Mut{K: "flip", Off: int64(r.N(len(b))), V: uint64(r.N(8))})
		case c == 2:
			muts = append(muts, Mut{K: "trunc", Off: g.pos(len(b))})
		case c == 3:
			o := r.N(len(b))
			n := prng.Pick(r, 1, 4, 16, 512)
			if r.P(1, 2) {
				o, n = o/512*512, 512
			}
			muts = append(muts, Mut{K: prng.Pick(r, "zero", "junk"), Off: int64(o), Len: n, V: g.u53()})
		case c < 8 && tag != "":
			m := Mut{K: "tset", T: tag, Len: prng.Pick(r, 1, 2, 2, 2, 4), V: g.oddValue(b, recs)}
			m.Off = int64(2 * r.N(max(1, min(tlen, 120)/2)))
			if r.P(1, 4) {
				m.Off = int64(r.N(max(1, tlen)))
			}
			if r.P(1, 3) {
				m.K, m.V = "tadd", prng.Pick(r, uint64(1), 2, 4, ^uint64(0), ^uint64(1), 256, uint64(r.N(1000)))
			}
			muts = append(muts, m)
		case c < 10 && tag != "":
			m := Mut{K: "dir", T: tag, F: 1 + r.N(3), V: g.oddValue(b, recs)}
			if r.P(1, 2) {
				m.K, m.V = "diradd", prng.Pick(r, uint64(1), 2, 4, 0xffffffff, 0xfffffffe, 0xfffffffc, 12, uint64(r.N(600)))
			}
			if r.P(1, 4) {
				m = Mut{K: "dir", T: tag, F: 3, V: uint64(r.N(prng.Pick(r, 4, 12, 16, max(1, min(tlen, 100)))))} // too short for what it holds
			}
			muts = append(muts, m)
		case c == 10:
			muts = append(muts, Mut{K: "num", V: prng.Pick(r, uint64(0), 1, uint64(len(recs)+1), uint64(max(0, len(recs)-1)), 0xffff, uint64(r.N(64)))})
		case c == 11:
			muts = append(muts, Mut{K: "append", Len: 1 + r.N(600), V: g.u53()})
		case c == 12:
			muts = append(muts, Mut{K: prng.Pick(r, "ins", "del"), Off: int64(r.N(len(b))), Len: prng.Pick(r, 1, 2, 4, 512, 1+r.N(40)), V: g.u53()})
		default:
			muts = append(muts, Mut{K: "set", Off: int64(r.N(min(len(b), 12+16*len(recs)+1))), V: uint64(r.U16())})
		}
	}
	return muts
}

func (g *gen) oddValue(b []byte, recs []sfnt.Rec) uint64 {
	r := g.r
	n := 0
	for _, q := range recs {
		if q.Tag == "maxp" && int(q.Off)+6 <= len(b) {
			n = int(binary.BigEndian.Uint16(b[q.Off+4:]))
		}
	}
	return prng.Pick(r, uint64(0), 1, 2, 0xff, 0x80, 0x7fff, 0x8000, 0xffff, 0xfffe, 0xffffffff, 0x7fffffff, 0x80000000, 0xfffffff0, 0x10000, uint64(len(b)), uint64(len(b))-1, uint64(n), uint64(n+1), uint64(max(0, n-1)), uint64(r.U16()), uint64(r.N(300)), uint64(r.U64()&0xffffffff), uint64(r.N(1<<20)))
}

// anyFont adds a font that is intact or damaged.
func (g *gen) anyFont(small bool, badNum, badDen int) int {
	s := g.spec(small)
	if !g.r.P(badNum, badDen) {
		return g.addFont(s)
	}
	f := FontSrc{Spec: s}
	f.Muts = g.damage(s.Bytes(), g.r.P(1, 2))
	if g.r.P(1, 2) {
		f.Muts = append(f.Muts, Mut{K: "fix", F: 1 + g.r.N(3)})
	}
	return g.addSrc(f)
}

// chunks (C05): delivery schedules.
func (g *gen) chunks() {
	r := g.r
	g.reset()
	f := g.anyFont(false, 1, 2)
	g.fontFiles()
	g.p.Chunk = g.u53()
	var ops []Op
	k := 1 + r.N(3)
	for i := 0; i < k; i++ {
		switch r.N(5) {
		case 0:
			ops = append(ops, Op{K: "valid", Via: "file", File: "font0.ttf"})
			continue
		case 1:
			ops = append(ops, Op{K: "load", R: 0, Via: "file", File: "font0.ttf"})
		default:
			ops = append(ops, Op{K: "load", R: 0, F: f, Via: "stream", Src: g.srcSpec()})
		}
		if r.P(3, 4) {
			ops = append(ops, Op{K: "q", A: 0, Q: g.u53()})
		}
		if r.P(1, 5) {
			ops = append(ops, Op{K: "reload", A: 0, R: 1, Src: g.srcSpec()}, Op{K: "q", A: 1, Q: g.u53()})
		}
		if r.P(3, 4) {
			ops = append(ops, Op{K: "write", A: 0})
		}
	}
	if r.P(1, 3) {
		ops = append(ops, Op{K: "valid", Via: "file", File: "font0.ttf"})
	}
	g.p.Pre = ops
}

// sources (C06): failing sources, and recovery.
func (g *gen) sources() {
	r := g.r
	g.reset()
	f := g.anyFont(false, 1, 4)
	g.fontFiles()
	if r.P(1, 3) {
		g.p.Chunk = g.u53()
	}
	kind := prng.Pick(r, "load", "load", "valid")
	via := "stream"
	if kind == "valid" || r.P(1, 3) {
		via = "file"
	}
	op := Op{K: kind, R: 0, F: f, Via: via}
	if via == "file" {
		op.File, op.F = "font0.ttf", 0
	} else if r.P(1, 3) {
		op.Src = g.srcSpec()
	} else {
		op.Src = &simio.SrcSpec{}
	}
	g.p.Pre = []Op{op}
	ev := g.probe()[0]
	reads, seeks := ev.Reads, ev.Seeks
	if via == "file" {
		reads, seeks = max(1, ev.DiskEvents/2), max(1, ev.DiskEvents/2)
	}
	k := 1 + r.N(3)
	var ops []Op
	for i := 0; i < k; i++ {
		o := op
		if via == "file" {
			o.DF = []simos.Fault{g.diskReadFault(g.sizes[f], reads, seeks)}
			if r.P(1, 8) {
				o.DF = append(o.DF, g.diskReadFault(g.sizes[f], reads, seeks))
			}
		} else {
			s := *op.Src
			s.Faults = []simio.Fault{g.srcFault(g.sizes[f], reads, seeks)}
			if r.P(1, 8) {
				s.Faults = append(s.Faults, g.srcFault(g.sizes[f], reads, seeks))
			}
			o.Src = &s
		}
		ops = append(ops, o)
		if kind == "load" {
			ops = append(ops, Op{K: "q", A: 0, Q: g.u53()}, Op{K: "write", A: 0})
		}
	}
	ops = append(ops, op)
	if kind == "load" {
		ops = append(ops, Op{K: "q", A: 0, Q: g.u53()}, Op{K: "write", A: 0})
	}
	g.p.Pre = ops
}

// hostile (C07): damaged data and hostile arguments.
func (g *gen) hostile() {
	r := g.r
	g.reset()
	var f int
	switch r.N(30) {
	case 0:
		f = g.addSrc(FontSrc{Raw: r.Bytes(r.N(300))})
	case 1:
		s := g.spec(true)
		f = g.addSrc(FontSrc{Spec: s})
	default:
		s := g.spec(r.P(4, 5))
		if s.N > 3000 {
			s = sfnt.NewSpec(r)
		}
		f = g.addSrc(FontSrc{Spec: s, Muts: g.damage(s.Bytes(), true)})
		if r.P(1, 4) {
			g.p.Fonts[f].Muts = append(g.p.Fonts[f].Muts, Mut{K: "fix", F: 1 + r.N(3)})
		}
	}
	g.fontFiles()
	ops := []Op{{K: "load", R: 0, F: f, Via: prng.Pick(r, "mem", "mem", "stream")}}
	if r.P(1, 4) {
		ops = append(ops, Op{K: "valid", F: f, Via: "mem"})
	}
	if r.P(1, 8) {
		ops[0].Via, ops[0].File, ops[0].F = "file", "font0.ttf", 0
		ops = append(ops, Op{K: "valid", Via: "file", File: "font0.ttf"})
	}
	n := 20
	if m := g.models[f]; m != nil {
		n = m.N
	} else if g.p.Fonts[f].Raw == nil && g.p.Fonts[f].Spec.Real == "" {
		n = g.p.Fonts[f].Spec.N
	}
	g.regs[0] = &sreg{font: f, n: n}
	k := 1 + r.N(5)
	for i := 0; i < k; i++ {
		a, s := g.pick()
		res := g.slot()
		switch r.N(9) {
		case 0, 1:
			ops = append(ops, Op{K: "q", A: a, Q: g.u53()})
			continue
		case 2:
			ops = append(ops, Op{K: "first", A: a, R: res, N: prng.Pick(r, -1, -1000000, 0, 1, s.n-1, s.n, s.n+1, 65535, 65536, 1<<30, r.N(s.n+1))})
		case 3:
			ops = append(ops, Op{K: "keep", A: a, R: res, G: g.glyphs(s)})
		case 4:
			ops = append(ops, Op{K: "keepr", A: a, R: res, S: append(g.runes(s), -1, 0x7fffffff)})
		case 5:
			ops = append(ops, Op{K: "prune", A: a, T: g.pruneNames()})
			continue
		case 6:
			ops = append(ops, Op{K: "opt", A: a})
			continue
		case 7:
			ops = append(ops, Op{K: "reload", A: a, R: res})
		default:
			ops = append(ops, Op{K: "write", A: a})
			continue
		}
		g.regs[res] = &sreg{font: f, n: s.n}
	}
	for _, a := range g.live() {
		ops = append(ops, Op{K: prng.Pick(r, "q", "write"), A: a, Q: g.u53()})
	}
	g.p.Pre = ops
	g.p.StepLimit = 300e6
}

// validity (C08): intact fonts, altered fonts, damaged files.
func (g *gen) validity() {
	r := g.r
	g.reset()
	s := g.spec(r.P(1, 2))
	var ops []Op
	switch r.N(8) {
	case 0: // intact, also freshly written
		f := g.addFont(s)
		g.fontFiles()
		ops = []Op{{K: "valid", F: f, Via: "mem"}, {K: "valid", Via: "file", File: "font0.ttf"}}
		if r.P(1, 2) {
			ops = append(ops, g.derived(f)...)
			ops = append(ops, Op{K: "writef", A: 0, File: "a.ttf"}, Op{K: "valid", Via: "file", File: "a.ttf"})
		}
	case 1: // a written file decays on disk
		f := g.addFont(s)
		ops = append(ops, g.derived(f)...)
		ops = append(ops, Op{K: "writef", A: 0, File: "a.ttf"}, Op{K: "valid", Via: "file", File: "a.ttf"})
		for i := 0; i < 1+r.N(3); i++ {
			ops = append(ops, Op{K: "corrupt", File: "a.ttf", Muts: g.decay(s.Bytes())}, Op{K: "valid", Via: "file", File: "a.ttf"})
		}
	default:
		b := s.Bytes()
		for i := 0; i < 1+r.N(3); i++ {
			g.addSrc(FontSrc{Spec: s, Muts: g.decay(b)})
		}
		g.fontFiles()
		for i := range g.p.Fonts {
			if r.P(1, 4) {
				ops = append(ops, Op{K: "valid", Via: "file", File: g.p.Files[i].Name})
			} else {
				ops = append(ops, Op{K: "valid", F: i, Via: "mem"})
			}
		}
	}
	if r.P(1, 4) {
		g.p.Chunk = g.u53()
	}
	g.p.Pre = ops
}

// decay draws an alteration together with what is made consistent again.
func (g *gen) decay(b []byte) []Mut {
	r := g.r
	recs, _ := sfnt.Directory(b)
	var muts []Mut
	pickTag := func() (string, int) {
		rec := recs[r.N(len(recs))]
		return rec.Tag, int(rec.Length)
	}
	switch r.N(12) {
	case 9: // a conspicuous value of the adjustment
		muts = []Mut{{K: "tset", T: "head", Off: 8, Len: 4, V: prng.Pick(r, uint64(0), 0, 0, 1, 0xffffffff, 0xB1B0AFBA, uint64(0xB1B0AFBA-sfnt.Sum(b)), uint64(sfnt.Sum(b)))}}
		if r.P(1, 3) {
			return append(muts, Mut{K: "fix", F: 1})
		}
		return muts
	case 10: // the sum over the file stays right
		a, n := pickTag()
		c, k := pickTag()
		d := uint64(1 + r.N(1<<20))
		if r.P(1, 2) {
			return []Mut{{K: "diradd", T: a, F: 1, V: d}, {K: "diradd", T: c, F: 1, V: -d}}
		}
		return []Mut{{K: "tadd", T: a, Off: int64(4 * r.N(max(1, n/4))), Len: 4, V: d}, {K: "tadd", T: c, Off: int64(4 * r.N(max(1, k/4))), Len: 4, V: -d}}
	case 11: // two entries of the same tag, one of them wrong
		a, _ := pickTag()
		c, _ := pickTag()
		for i := 0; i < len(recs)-1; i++ { // a table the library does not use becomes a second one
			switch recs[i].Tag {
			case "DSIG", "GDEF", "GPOS", "aaaa", "bulk", "kern":
				if r.P(1, 2) {
					c := recs[i+1+r.N(len(recs)-1-i)].Tag
					return []Mut{{K: "dir", T: recs[i].Tag, F: 0, V: uint64(binary.BigEndian.Uint32([]byte(c)))},
						{K: "flip", Off: int64(recs[i].Pos + 4 + r.N(4)), V: uint64(r.N(8))}, {K: "fix", F: 2}}
				}
			}
		}
		muts = []Mut{{K: "dir", T: a, F: 0, V: uint64(binary.BigEndian.Uint32([]byte(c)))}}
		if r.P(4, 5) {
			n := r.N(len(recs))
			if r.P(3, 4) { // one of the two
				for i, rec := range recs {
					if rec.Tag == c || rec.Tag == a && r.P(1, 2) {
						n = i
					}
				}
			}
			muts = append(muts, Mut{K: "flip", Off: int64(recs[n].Pos + 4 + r.N(4)), V: uint64(r.N(8))})
		}
		return append(muts, Mut{K: "fix", F: 2})
	case 0:
		muts = []Mut{{K: "flip", Off: int64(r.N(len(b))), V: uint64(r.N(8))}}
	case 1, 2, 3:
		t, n := pickTag()
		o := int64(r.N(max(1, n)))
		if r.P(1, 3) {
			o = int64(max(0, n-1-r.N(4)))
		}
		muts = []Mut{{K: "tadd", T: t, Off: o, Len: 1, V: uint64(1 + r.N(255))}}
	case 4:
		o := r.N(len(b)) / 512 * 512
		muts = []Mut{{K: prng.Pick(r, "zero", "junk"), Off: int64(o), Len: 512, V: g.u53()}}
	case 5:
		muts = []Mut{{K: "trunc", Off: int64(1 + r.N(len(b)-1))}}
		if r.P(1, 2) {
			muts[0].Off = int64(len(b) - 1 - r.N(min(len(b)-1, 8)))
		}
	case 6:
		t, _ := pickTag()
		muts = []Mut{{K: prng.Pick(r, "dir", "diradd"), T: t, F: 1, V: prng.Pick(r, uint64(0), 1, g.u53()&0xffffffff, 0x80000000)}}
	case 7:
		muts = []Mut{{K: "tadd", T: "head", Off: 8 + int64(r.N(4)), Len: 1, V: uint64(1 + r.N(255))}}
	default:
		muts = g.damage(b, false)
	}
	switch r.N(4) {
	case 0:
		muts = append(muts, Mut{K: "fix", F: 1})
	case 1, 2:
		muts = append(muts, Mut{K: "fix", F: 2})
	}
	return muts
}

// determinism (C11): the same history under other map orders, log levels, deliveries and preceding activity.
func (g *gen) determinism() {
	r := g.r
	g.reset()
	f := g.anyFont(false, 1, 8)
	other := -1
	if r.P(1, 2) {
		other = g.anyFont(true, 1, 3)
	}
	g.fontFiles()
	g.p.MapSeed = 1 + g.u53()
	g.p.Log = r.N(5)
	if r.P(1, 2) {
		g.p.Chunk = g.u53()
	}
	g.p.Again = true
	var ops []Op
	if other >= 0 {
		ops = append(ops, Op{K: "load", R: 7, F: other, Via: "mem"})
		for i := 0; i < 1+r.N(3); i++ {
			ops = append(ops, prng.Pick(r,
				Op{K: "q", A: 7, Q: g.u53()}, Op{K: "write", A: 7, Sink: g.sinkFault(g.sizes[other])}, Op{K: "valid", F: other, Via: "mem"},
				Op{K: "first", A: 7, R: 8, N: r.N(30)}, Op{K: "prune", A: 7, T: g.pruneNames()}))
		}
	}
	w := weights{load: 1, first: 3, keep: 3, keepr: 3, prune: 1, opt: 1, reload: 1, write: 3, q: 5, badw: 1, badl: 1, valid: 1}
	ops = append(ops, g.loadOp(f))
	n := 2 + r.N(6)
	for i := 0; i < n; i++ {
		ops = append(ops, g.step(w)...)
	}
	for _, k := range g.live() {
		ops = append(ops, Op{K: "q", A: k, Q: g.u53()}, Op{K: "write", A: k})
	}
	g.p.Pre = ops
}

// concurrent (C12): tasks on distinct, related and shared fonts.
func (g *gen) concurrent() {
	r := g.r
	g.reset()
	nf := 1 + r.N(2)
	for i := 0; i < nf; i++ {
		g.addFont(g.spec(true))
	}
	g.fontFiles()
	if r.P(1, 4) {
		g.p.MapSeed = g.u53()
	}
	if r.P(1, 6) {
		g.p.Log = r.N(5)
	}
	// Fonts that exist before the tasks start, unless the tasks have nothing in common.
	var pre []Op
	apart := r.P(1, 5)
	for i := 0; i < nf && !apart; i++ {
		pre = append(pre, Op{K: "load", R: i, F: i, Via: "mem"})
		g.regs[i] = &sreg{font: i, n: g.models[i].N}
	}
	nd := r.N(3)
	for i := 0; i < nd && !apart; i++ {
		a, s := g.pick()
		k := len(g.regs)
		op := Op{K: "first", A: a, R: k, N: max(0, g.firstN(s.n))}
		if r.P(1, 2) {
			op = Op{K: "keep", A: a, R: k, G: g.glyphs(s)}
		}
		pre = append(pre, op)
		g.regs[k] = &sreg{font: s.font, n: s.n}
	}
	if r.P(1, 4) && !apart {
		a, _ := g.pick()
		pre = append(pre, prng.Pick(r, Op{K: "q", A: a, Q: g.u53()}, Op{K: "write", A: a}))
	}
	shared := g.regs
	nt := prng.Pick(r, 2, 2, 2, 3, 4)
	focus := r.N(max(1, len(shared))) // most tasks use this font
	for t := 0; t < nt; t++ {
		// Every task may use the shared fonts and has its own result registers.
		g.regs = map[int]*sreg{}
		for k := 0; k < len(shared); k++ {
			if k == focus || r.P(1, 2) {
				g.regs[k] = shared[k]
			}
		}
		own := 10 * (t + 1)
		var ops []Op
		if apart {
			f := r.N(nf)
			g.regs[own] = &sreg{font: f, n: g.models[f].N}
			ops = append(ops, Op{K: "load", R: own, F: f, Via: prng.Pick(r, "mem", "mem", "stream")})
		}
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			a, s := g.pick()
			if r.P(1, 2) && g.regs[focus] != nil {
				a, s = focus, g.regs[focus]
			}
			mk := func() int {
				own++
				g.regs[own] = &sreg{font: s.font, n: s.n}
				return own
			}
			switch r.N(12) {
			case 0, 1, 2:
				ops = append(ops, Op{K: "keep", A: a, R: mk(), G: g.glyphs(s)})
			case 3:
				ops = append(ops, Op{K: "first", A: a, R: mk(), N: max(0, g.firstN(s.n))})
			case 4:
				ops = append(ops, Op{K: "keepr", A: a, R: mk(), S: g.runes(s)})
			case 5, 6:
				ops = append(ops, Op{K: "write", A: a})
			case 7:
				ops = append(ops, Op{K: "write", A: a, Sink: g.sinkFault(g.sizes[s.font])})
			case 8, 9:
				ops = append(ops, Op{K: "q", A: a, Q: g.u53()})
			case 10:
				f := r.N(nf)
				own++
				g.regs[own] = &sreg{font: f, n: g.models[f].N}
				ops = append(ops, Op{K: "load", R: own, F: f, Via: prng.Pick(r, "mem", "stream")})
			default:
				ops = append(ops, prng.Pick(r, Op{K: "opt", A: a}, Op{K: "prune", A: a, T: g.pruneNames()}, Op{K: "writef", A: a, File: "t" + string(rune('0'+t)) + ".ttf"}, Op{K: "valid", F: r.N(nf), Via: "mem"}))
			}
		}
		if k := own; g.regs[k] != nil && r.P(2, 3) {
			ops = append(ops, Op{K: prng.Pick(r, "write", "q"), A: k, Q: g.u53()})
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
	g.p.Pre = pre
	// Probe the sequential execution for the positions of preemptions.
	type span struct {
		task, op     int
		steps, fresh int64
	}
	var spans []span
	for _, e := range g.probe() {
		if e.Conc && !e.Skipped && e.Steps > 0 {
			spans = append(spans, span{e.Task, e.Idx, e.Steps, e.Fresh})
		}
	}
	k := 1 + r.N(4)
	if r.P(1, 5) {
		k = 4 + r.N(12)
	}
	for i := 0; i < k && len(spans) > 0; i++ {
		s := spans[r.N(len(spans))]
		p := rt.Preempt{Task: s.task, Op: s.op, To: r.N(nt)}
		if p.To == p.Task {
			p.To = (p.To + 1) % nt
		}
		if r.P(3, 5) && s.fresh > 0 {
			p.Kind, p.N, p.Hit = "fresh", int64(r.N(int(s.fresh))), int32(1+r.Log(6))
		} else {
			p.Kind, p.N = "step", int64(r.U64()%uint64(s.steps+1))
		}
		g.p.Preempts = append(g.p.Preempts, p)
	}
	g.p.MapPark = r.P(1, 2)
}

// crashing (C13): the machine dies while fonts are written.
func (g *gen) crashing() {
	r := g.r
	g.reset()
	nf := 1 + r.N(2)
	for i := 0; i < nf; i++ {
		g.addFont(g.spec(r.P(2, 3)))
	}
	rel := r.P(1, 2) && nf == 2
	if rel {
		// The new font is a close relative of the old one: stale sectors look plausible.
		s := g.p.Fonts[0].Spec
		s.Tail, s.OS2, s.Seed = g.r.N(5), r.N(6), s.Seed+uint64(r.N(2))
		g.p.Fonts = g.p.Fonts[:1]
		g.bytes, g.sizes, g.models = g.bytes[:1], g.sizes[:1], g.models[:1]
		g.addFont(s)
	}
	g.fontFiles()
	switch r.N(4) {
	case 0:
	case 1:
		g.p.Files = append(g.p.Files, FileInit{Name: "t.ttf", Font: -1, Len: r.N(3 * g.sizes[0]), Seed: g.u53()})
	default:
		g.p.Files = append(g.p.Files, FileInit{Name: "t.ttf", Font: r.N(nf)})
	}
	target := "t.ttf"
	if r.P(1, 6) {
		target = "font0.ttf"
	}
	act := func() []Op {
		f := r.N(nf)
		ops := g.derived(f)
		if r.P(1, 5) {
			ops = append(ops, Op{K: "writef", A: 0, File: "u.ttf"})
		}
		w := Op{K: "writef", A: 0, File: target}
		if r.P(1, 8) {
			w.DF = []simos.Fault{g.diskWriteFault(g.sizes[f])}
		}
		ops = append(ops, w)
		if r.P(1, 4) {
			ops = append(ops, Op{K: "valid", Via: "file", File: target})
		}
		return ops
	}
	g.p.Pre = act()
	if g.p.Chunk = 0; r.P(1, 6) {
		g.p.Chunk = g.u53()
	}
	events := func(phase int) int {
		n := 0
		for _, e := range g.probe() {
			if e.Phase == phase && (e.Op.K == "writef" || e.Op.Via == "file") {
				n += e.DiskEvents
			}
		}
		return n
	}
	k := 1
	if r.P(1, 4) {
		k = 2 + r.N(2)
	}
	for i := 0; i < k; i++ {
		n := events(i)
		c := Crash{At: 1 + r.N(max(1, n)), Tear: prng.Pick(r, 0, 64, 128, 255, r.N(257), r.N(257)), Power: r.P(2, 3), Seed: g.u53()}
		if r.P(1, 8) {
			c.At = n + 1 // never reached: crash after the work (still loses unsynced data)
		}
		g.p.Crash = append(g.p.Crash, c)
		// After the restart: look at what survived, then write again.
		post := []Op{{K: "valid", Via: "file", File: target}, {K: "load", R: 3, Via: "file", File: target}, {K: "q", A: 3, Q: g.u53()}, {K: "write", A: 3}}
		post = append(post, act()...)
		g.p.Post = append(g.p.Post, post)
	}
}

// filework (C14): file operations with faults anywhere.
func (g *gen) filework() {
	r := g.r
	g.reset()
	g.anyFont(true, 1, 4)
	if r.P(1, 2) {
		g.anyFont(true, 1, 2)
	}
	g.fontFiles()
	g.p.Files = append(g.p.Files, FileInit{Name: "junk.bin", Font: -1, Len: r.N(2000), Seed: g.u53()})
	if r.P(1, 3) {
		g.p.Chunk = g.u53()
	}
	names := []string{"font0.ttf", "font0.ttf", "font1.ttf", "junk.bin", "missing.ttf", "new.ttf", "./new.ttf", "out/new.ttf"}
	ops := []Op{{K: "load", R: 0, F: 0, Via: "mem"}}
	// Probe how many disk events a load and a validation need.
	g.p.Pre = []Op{{K: "load", R: 0, Via: "file", File: "font0.ttf"}, {K: "valid", Via: "file", File: "font0.ttf"}}
	ev := g.probe()
	k := 1 + r.N(6)
	for i := 0; i < k; i++ {
		var op Op
		fi := r.N(len(g.p.Fonts))
		switch r.N(3) {
		case 0:
			op = Op{K: "load", R: r.N(2), Via: "file", File: names[r.N(len(names))]}
		case 1:
			op = Op{K: "valid", Via: "file", File: names[r.N(len(names))]}
		default:
			op = Op{K: "writef", A: r.N(2), File: names[r.N(len(names))]}
			if r.P(1, 4) {
				op.File = "font0.ttf"
			}
		}
		if r.P(2, 3) {
			if op.K == "writef" {
				op.DF = []simos.Fault{g.diskWriteFault(g.sizes[fi])}
			} else {
				n := max(1, ev[0].DiskEvents/2)
				if op.K == "valid" {
					n = max(1, ev[1].DiskEvents/2)
				}
				op.DF = []simos.Fault{g.diskReadFault(g.sizes[fi], n, n)}
			}
			if r.P(1, 6) {
				op.DF = append(op.DF, g.diskReadFault(g.sizes[fi], 20, 20))
			}
		}
		ops = append(ops, op)
		if r.P(1, 6) {
			ops = append(ops, Op{K: "first", A: r.N(2), R: 1, N: r.N(20)})
		}
	}
	g.p.Pre = ops
}

// qseed draws what a query asks.
func (g *gen) qseed() uint64 {
	if g.p.Prop == "C21" {
		return g.u53() | qInfo<<56
	}
	return g.u53()
}
