package engine

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/unidoc/unitype"

	"verifsim/prng"
	"verifsim/sfnt"
)

// Violation is one broken promise.
type Violation struct {
	Class string `json:"class"` // stable under minimisation
	Msg   string `json:"msg"`
	At    string `json:"at"`
}

type checker struct {
	x     *Exec
	vs    []Violation
	parse map[int]*parsed
	verd  map[int]string
	// Coverage: how often each clause was actually decided.
	Decided map[string]int
}

type parsed struct {
	f        *sfnt.Font
	problems []string
}

func (c *checker) bad(e *Event, class, f string, a ...any) {
	at := ""
	if e != nil {
		at = e.where()
	}
	if len(c.vs) < 20 {
		c.vs = append(c.vs, Violation{class, fmt.Sprintf(f, a...), at})
	}
}

func (c *checker) parseOut(b []byte) *parsed {
	id := c.x.intern(b)
	if p, ok := c.parse[id]; ok {
		return p
	}
	p := &parsed{}
	p.f, p.problems = sfnt.Parse(b)
	c.parse[id] = p
	return p
}

func (c *checker) verdict(id int) string {
	v, ok := c.verd[id]
	if !ok {
		v = sfnt.Verdict(c.x.blobs[id].data)
		c.verd[id] = v
	}
	return v
}

// wellFormed: the lineage starts at a font the simulator knows to be intact.
func (c *checker) wellFormed(l *Lin) bool {
	if l == nil || l.blob < 0 {
		return false
	}
	b := c.x.blobs[l.blob]
	return b.intact || b.model != nil
}

// Check judges an executed plan for its property.
func Check(x *Exec) ([]Violation, map[string]int) {
	c := &checker{x: x, parse: map[int]*parsed{}, verd: map[int]string{}, Decided: map[string]int{}}
	if x.Fatal != "" {
		c.bad(nil, "fatal", "%s", x.Fatal)
		return c.vs, c.Decided
	}
	switch x.P.Prop {
	case "C01":
		c.sane(true)
		c.roundTrip()
	case "C02":
		c.sane(true)
		c.sound()
	case "C03":
		c.sane(false)
		c.delivered()
	case "C04":
		c.sane(true)
		c.alone(false)
		c.retry()
	case "C05":
		c.sane(false)
		c.verdicts(false)
		c.alone(false)
	case "C06":
		c.sane(false)
		c.verdicts(true)
		c.alone(false)
	case "C07":
		c.robust()
	case "C08":
		c.sane(false)
		c.validation()
	case "C09":
		c.sane(true)
		c.alone(true)
	case "C10":
		c.sane(true)
		c.content("first", "keep", "keepr")
		c.answers("first", "keep", "keepr")
	case "C11":
		c.sane(false)
		c.verdicts(false)
		c.alone(false)
	case "C12":
		c.sane(true)
		c.verdicts(false)
		c.alone(true)
	case "C13":
		c.sane(true)
		c.crashes()
	case "C14":
		c.sane(false)
		c.handles()
	case "C15":
		c.sane(true)
		c.answers()
		c.agree()
	case "C16":
		c.sane(true)
		c.content("prune", "opt")
		c.answers("prune", "opt")
		c.optimal()
	case "C21":
		c.sane(true)
		c.info()
	default:
		c.bad(nil, "engine", "no oracle for property %s", x.P.Prop)
	}
	return c.vs, c.Decided
}

// sane: no operation panics or hangs; with strict, operations on well-formed fonts succeed when no fault
// was injected.
func (c *checker) sane(strict bool) {
	for _, e := range c.x.Events {
		if e.Panic != "" {
			c.bad(e, "panic:"+e.Where, "the operation panicked: %s (in %s)", e.Panic, e.Where)
		}
		if e.Hang {
			c.bad(e, "hang", "the operation did not finish within %d statements", c.x.limit())
		}
		if !strict || e.Err == nil || e.Fired > 0 || e.Crashed {
			continue
		}
		known := false
		switch e.Op.K {
		case "load", "valid":
			known = e.Blob >= 0 && c.knownGood(e.Blob)
		case "first":
			known = e.Model != nil && e.Op.N >= 0
		default:
			known = e.Model != nil
		}
		if known {
			c.bad(e, "unexpected-error:"+e.Op.K, "fails on a well-formed font although nothing went wrong: %v", e.Err)
		}
	}
}

func (c *checker) knownGood(id int) bool {
	m, _ := c.x.modelOf(id)
	return m != nil
}

// roundTrip (C01).
func (c *checker) roundTrip() {
	for _, e := range c.x.Events {
		if e.Out == nil || e.Fired > 0 || e.Model == nil || e.Panic != "" || e.Hang {
			continue
		}
		if e.Err != nil && e.Op.K != "reload" {
			continue
		}
		p := c.parseOut(e.Out)
		if p.f == nil {
			c.bad(e, "unreadable", "the written file cannot be read: %s", strings.Join(p.problems, "; "))
			continue
		}
		c.Decided["written fonts compared"]++
		want := e.Model.Written()
		if d := sfnt.Diff(p.f, want); len(d) > 0 {
			c.bad(e, "content:"+classOf(d[0]), "the written font differs from the font: %s", strings.Join(d, "; "))
			continue
		}
		id := c.x.intern(e.Out)
		lin := &Lin{blob: id, key: fmt.Sprint("b", id)}
		r := c.x.soloWrite(lin)
		switch {
		case r.panic != "":
			c.bad(e, "reload-panic", "loading or re-writing the written bytes panics: %s", r.panic)
		case r.err != nil:
			c.bad(e, "reload-error", "loading or re-writing the written bytes fails: %v", r.err)
		case !bytes.Equal(r.out, e.Out):
			c.bad(e, "not-fixed-point", "writing the re-loaded font gives different bytes (%d, then %d bytes, first difference at %d)", len(e.Out), len(r.out), firstByteDiff(e.Out, r.out))
		}
		if r.err == nil && r.panic == "" && e.Lin != nil {
			seed := prng.Mix(c.x.P.Seed, 3)&(1<<56-1) | uint64(qLookup|qCmaps|qNames|qLocs)<<56
			q := makeQuery(seed, e.Reg.root)
			a, b := c.x.soloQuery(e.Lin, q, seed, e.Reg.root), c.x.soloQuery(lin, q, seed, e.Reg.root)
			if a.obs != nil && b.obs != nil {
				c.Decided["reloaded fonts queried"]++
				if d := diffObs(b.obs, a.obs, qLookup|qCmaps|qNames|qLocLen); d != "" {
					c.bad(e, "reload-answers", "the re-loaded font answers differently: %s", d)
				}
			}
		}
	}
}

func classOf(d string) string {
	f := strings.Fields(d)
	if len(f) == 0 {
		return ""
	}
	return f[0]
}

func firstByteDiff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// sound (C02).
func (c *checker) sound() {
	for _, e := range c.x.Events {
		if e.Out == nil || e.Fired > 0 || !c.wellFormed(e.Lin) || e.Panic != "" || e.Hang {
			continue
		}
		if e.Err != nil && e.Op.K != "reload" {
			continue
		}
		c.Decided["written files inspected"]++
		p := c.parseOut(e.Out)
		if len(p.problems) > 0 {
			c.bad(e, "unsound:"+classOf(p.problems[0]), "the written file is not structurally sound: %s", strings.Join(p.problems[:min(4, len(p.problems))], "; "))
			continue
		}
		if ps := sfnt.Search(e.Out); len(ps) > 0 {
			c.bad(e, "search:"+classOf(ps[0]), "the written file misleads readers that search it: %s", strings.Join(ps[:min(4, len(ps))], "; "))
		}
		r := c.x.soloValid(c.x.intern(e.Out))
		if r.err != nil || r.panic != "" {
			c.bad(e, "rejected", "the library's validation rejects the written bytes: %v%s", r.err, r.panic)
		}
	}
}

// delivered (C03).
func (c *checker) delivered() {
	for _, e := range c.x.Events {
		if e.Op.K != "write" && e.Op.K != "writef" || e.Skipped || e.Crashed || e.Panic != "" || e.Hang {
			continue
		}
		r := c.x.soloWrite(e.Lin)
		if e.Err == nil {
			c.Decided["successes"]++
			// Whoever tries again and gets everything through need not report the first attempt.
			madeUp := e.MustReport == 0 && r.out != nil && bytes.Equal(e.Out, r.out)
			if e.Fired > 0 && !madeUp {
				c.bad(e, "silent-failure", "the destination failed but the write reported success (delivered %d bytes, the font has %d)", len(e.Out), len(r.out))
				continue
			}
			if r.err == nil && r.panic == "" && !bytes.Equal(e.Out, r.out) {
				c.bad(e, "wrong-delivery", "the write reported success but delivered %d bytes that differ from the font's %d bytes at %d", len(e.Out), len(r.out), firstByteDiff(e.Out, r.out))
			}
			continue
		}
		if e.Fired == 0 {
			if r.err == nil && r.panic == "" {
				c.bad(e, "false-failure", "the write reported %v although the destination worked", e.Err)
			}
			continue
		}
		c.Decided["reported failures"]++
	}
}

// alone (C04, C05, C06, C09, C11, C12): every answer and every written byte is what the font's own chain
// of operations gives when run alone.
func (c *checker) alone(model bool) {
	for _, e := range c.x.Events {
		if e.Skipped || e.Crashed || e.Panic != "" || e.Hang {
			continue
		}
		switch e.Op.K {
		case "q":
			r := c.x.soloQuery(e.Lin, e.Query, e.Op.Q, e.Reg.root)
			if r.obs == nil {
				c.bad(e, "alone-impossible", "the font exists but running its operations alone fails: %v %s", r.err, r.panic)
				continue
			}
			c.Decided["answers compared"]++
			if d := diffObs(e.Obs, r.obs, qAll); d != "" {
				c.bad(e, "answer", "%s (running this font's own operations alone)", d)
			} else if model && e.Model != nil {
				if cl, m := judgeObs(e.Obs, e.Model, e.FreshReg); m != "" {
					c.bad(e, "model-"+cl, "%s", m)
				}
			}
		case "write", "writef":
			if e.Fired > 0 {
				continue
			}
			r := c.x.soloWrite(e.Lin)
			if (e.Err == nil) != (r.err == nil) || r.panic != "" {
				c.bad(e, "write-outcome", "write gives error %v, alone it gives %v %s", e.Err, r.err, r.panic)
				continue
			}
			if e.Err != nil {
				continue
			}
			c.Decided["written fonts compared"]++
			if !bytes.Equal(e.Out, r.out) {
				c.bad(e, "bytes", "the written font differs from what the font's own operations give alone: %s", c.explain(e.Out, r.out))
			} else if model && e.Model != nil {
				p := c.parseOut(e.Out)
				if p.f == nil {
					c.bad(e, "model-unreadable", "the written file cannot be read: %s", strings.Join(p.problems, "; "))
				} else if d := sfnt.Diff(p.f, e.Model.Written()); len(d) > 0 {
					c.bad(e, "model-content:"+classOf(d[0]), "the written font differs from the font: %s", strings.Join(d, "; "))
				}
			}
		case "first", "keep", "keepr", "prune", "opt", "reload":
			if e.Fired > 0 {
				continue
			}
			r := c.x.soloState(e.Lin.with(e.Op))
			if (e.Err == nil) != (r.err == nil && r.panic == "") {
				c.bad(e, "state-outcome", "the operation gives error %v, alone it gives %v %s", e.Err, r.err, r.panic)
			}
		}
	}
}

func (c *checker) explain(got, want []byte) string {
	g, w := c.parseOut(got), c.parseOut(want)
	if g.f != nil && w.f != nil {
		if d := sfnt.Diff(g.f, w.f); len(d) > 0 {
			return strings.Join(d[:min(3, len(d))], "; ")
		}
	}
	return fmt.Sprintf("%d bytes, expected %d, first difference at %d", len(got), len(want), firstByteDiff(got, want))
}

// retry (C04): repeated writes of an unchanged font are identical.
func (c *checker) retry() {
	type key struct {
		reg int
		lin string
	}
	first := map[key]*Event{}
	for _, e := range c.x.Events {
		if (e.Op.K == "write" || e.Op.K == "writef") && e.ok() && e.Fired == 0 {
			k := key{e.Reg.id, e.Lin.key}
			if f := first[k]; f == nil {
				first[k] = e
			} else {
				c.Decided["repeated writes compared"]++
				if !bytes.Equal(f.Out, e.Out) {
					c.bad(e, "repeat", "the write gives other bytes than %s: %s", f.where(), c.explain(e.Out, f.Out))
				}
			}
		}
	}
}

// verdicts (C05, C06, C11): loading and validating give the undisturbed verdict.
func (c *checker) verdicts(faults bool) {
	for _, e := range c.x.Events {
		if e.Skipped || e.Crashed || e.Panic != "" || e.Hang || e.Op.K != "load" && e.Op.K != "valid" {
			continue
		}
		if e.Blob < 0 {
			if e.Err == nil {
				c.bad(e, "ghost", "succeeds although there is no such file")
			}
			continue
		}
		var r *soloRes
		if e.Op.K == "load" {
			r = c.x.soloState(&Lin{blob: e.Blob, key: fmt.Sprint("b", e.Blob)})
		} else {
			r = c.x.soloValid(e.Blob)
		}
		if r.panic != "" || r.hang {
			continue // robustness against damaged data is decided elsewhere
		}
		c.Decided["verdicts compared"]++
		if e.Fired > 0 && e.Err != nil {
			c.Decided["faults reported"]++
			continue
		}
		if e.Fired > 0 {
			c.Decided["faults survived"]++
		}
		if e.Err == nil && r.err != nil {
			c.bad(e, "accepts", "succeeds, but the intact bytes delivered whole give: %v", r.err)
		}
		if e.Err != nil && r.err == nil && e.Fired == 0 {
			c.bad(e, "refuses", "fails with %v, but the same bytes delivered whole are accepted", e.Err)
		}
	}
	_ = faults
}

// robust (C07).
func (c *checker) robust() {
	size := 0
	for _, id := range c.x.fonts {
		size = max(size, len(c.x.blobs[id].data))
	}
	for _, e := range c.x.Events {
		if e.Skipped {
			continue
		}
		c.Decided["operations on hostile data"]++
		if e.Panic != "" {
			c.bad(e, "panic:"+e.Op.K+":"+e.Where, "the operation panicked: %s (in %s)", e.Panic, e.Where)
		}
		if e.Hang {
			c.bad(e, "hang:"+e.Op.K, "the operation did not finish within %d statements on %d bytes of input", c.x.limit(), size)
		}
		lim := uint64(48<<20) + uint64(size)*256
		if e.Op.K == "q" {
			// All names are asked for, and names may share bytes: the answer itself can be large.
			lim = uint64(768<<20) + uint64(size)*4096
		}
		if e.Alloc > lim {
			c.bad(e, "alloc:"+e.Op.K, "the operation allocated %d MB for %d bytes of input", e.Alloc>>20, size)
		}
	}
}

// severalHeads tells that it is open which adjustment the file records.
func severalHeads(b []byte) bool {
	recs, err := sfnt.Directory(b)
	if err != nil {
		return false
	}
	n := 0
	for _, r := range recs {
		if r.Tag == "head" {
			n++
		}
	}
	return n > 1
}

// validation (C08).
func (c *checker) validation() {
	for _, e := range c.x.Events {
		if e.Op.K != "valid" || e.Skipped || e.Crashed || e.Panic != "" || e.Hang || e.Blob < 0 {
			continue
		}
		if c.knownGood(e.Blob) {
			c.Decided["intact fonts"]++
			if e.Err != nil && e.Fired == 0 {
				c.bad(e, "false-rejection", "rejects an intact font: %v", e.Err)
			}
			continue
		}
		data := c.x.blobs[e.Blob].data
		v := c.verdict(e.Blob)
		if v == "" || severalHeads(data) {
			continue
		}
		c.Decided["altered fonts"]++
		if e.Err == nil {
			c.bad(e, "false-acceptance:"+v, "accepts an altered font: %s", v)
		}
	}
}

// content (C10, C16): what is written is what the operations should have made of the font.
func (c *checker) content(kinds ...string) {
	for _, e := range c.x.Events {
		if e.Out == nil || e.Fired > 0 || e.Model == nil || e.Panic != "" || e.Hang || !e.Lin.has(kinds...) {
			continue
		}
		if e.Err != nil && e.Op.K != "reload" {
			continue
		}
		c.Decided["written fonts compared"]++
		p := c.parseOut(e.Out)
		if p.f == nil {
			c.bad(e, "unreadable", "the written file cannot be read: %s", strings.Join(p.problems, "; "))
			continue
		}
		if d := sfnt.Diff(p.f, e.Model.Written()); len(d) > 0 {
			c.bad(e, "content:"+classOf(d[0]), "after %s the written font is wrong: %s", chain(e.Lin), strings.Join(d, "; "))
		}
	}
}

func chain(l *Lin) string {
	var s []string
	for ; l != nil && l.parent != nil; l = l.parent {
		s = append([]string{l.op.K}, s...)
	}
	return strings.Join(s, ", ")
}

// answers (C15, C10, C16).
func (c *checker) answers(kinds ...string) {
	for _, e := range c.x.Events {
		if e.Op.K != "q" || !e.ok() || e.Model == nil {
			continue
		}
		if len(kinds) > 0 && !e.Lin.has(kinds...) {
			continue
		}
		c.Decided["answers judged"]++
		if cl, m := judgeObs(e.Obs, e.Model, e.FreshReg); m != "" {
			c.bad(e, "answer-"+cl, "%s", m)
		}
	}
}

// info (C21).
func (c *checker) info() {
	for _, e := range c.x.Events {
		if e.Op.K != "q" || !e.ok() || e.Model == nil {
			continue
		}
		c.Decided["answers judged"]++
		if cl, m := judgeInfo(e.Obs, e.Model, e.FreshReg); m != "" {
			c.bad(e, cl, "%s", m)
		}
	}
}

// agree (C15): a font and the same font written and re-loaded give the same answers.
func (c *checker) agree() {
	for _, e := range c.x.Events {
		if e.Op.K != "q" || !e.ok() || !c.wellFormed(e.Lin) {
			continue
		}
		l := e.Lin.with(Op{K: "reload"})
		r := c.x.soloQuery(l, e.Query, e.Op.Q, e.Reg.root)
		if r.obs == nil {
			c.bad(e, "reload", "the font cannot be written and re-loaded: %v %s", r.err, r.panic)
			continue
		}
		c.Decided["answers compared with the re-loaded font"]++
		if d := diffObs(e.Obs, r.obs, qLookup|qCmaps|qNames|qLocLen); d != "" {
			c.bad(e, "reload-answer", "the font written and re-loaded answers differently: %s", d)
		}
	}
}

// optimal (C16): after optimizing, the trailing run of equal advances is stored once.
func (c *checker) optimal() {
	for _, e := range c.x.Events {
		if e.Out == nil || e.Err != nil || e.Fired > 0 || e.Model == nil || !e.Lin.has("opt") {
			continue
		}
		sub := false
		for l := e.Lin; l != nil && l.op.K != "opt"; l = l.parent {
			sub = sub || l.op.K == "first" || l.op.K == "keep" || l.op.K == "keepr"
		}
		p := c.parseOut(e.Out)
		if sub || p.f == nil || !p.f.HasHmtx || p.f.N == 0 {
			continue
		}
		c.Decided["optimized metrics inspected"]++
		if n := p.f.NHM; n > 1 && p.f.Adv[n-1] == p.f.Adv[n-2] {
			c.bad(e, "not-optimal", "after optimizing, %d metrics are stored although the last two advances are equal (%d)", n, p.f.Adv[n-1])
		}
	}
}

// crashes (C13).
func (c *checker) crashes() {
	x := c.x
	// Complete contents each file has legitimately had: initial ones and those of complete writes.
	hist := map[string]map[int]bool{}
	for n, s := range x.PhaseFiles[0] {
		hist[n] = map[int]bool{s.Blob: true}
	}
	inflight := map[string]*Lin{}
	written := map[string]bool{} // also earlier: what is never synced can be lost at any later crash
	for ph := 1; ph < len(x.PhaseFiles); ph++ {
		for _, e := range x.Events {
			if e.Phase != ph-1 || e.Skipped {
				continue
			}
			if e.Op.K == "corrupt" {
				return
			}
			if e.Op.K != "writef" {
				continue
			}
			n := e.Op.File
			written[n] = true
			if hist[n] == nil {
				hist[n] = map[int]bool{}
			}
			if r := x.soloWrite(e.Lin); r.err == nil && r.panic == "" {
				hist[n][x.intern(r.out)] = true
			}
			if e.ok() && e.Fired == 0 {
				c.Decided["complete writes"]++
				if r := x.soloWrite(e.Lin); r.out != nil && !bytes.Equal(r.out, e.Out) {
					c.bad(e, "incomplete", "the write after restart reports success but the file is not the complete font")
				}
			}
			if e.Crashed {
				inflight[n] = e.Lin
				c.Decided["writes interrupted"]++
			}
		}
		// What is on disk when phase ph begins.
		now := x.PhaseFiles[ph]
		for n, s := range x.PhaseFiles[ph-1] {
			if _, ok := x.PhaseFiles[0][n]; !ok || written[n] {
				continue // the write's own, also if it is a temporary file of an interrupted one
			}
			t, ok := now[n]
			if !ok {
				c.bad(nil, "bystander", "file %s, which nobody wrote, is gone after the crash in phase %d", n, ph-1)
			} else if t.Blob != s.Blob {
				c.bad(nil, "bystander", "file %s, which nobody wrote, changed in the crash in phase %d", n, ph-1)
			}
		}
		for n, t := range now {
			if !written[n] {
				continue
			}
			if hist[n][t.Blob] || c.lostPadding(t.Blob, hist[n]) {
				c.Decided["complete content after crash"]++
				continue
			}
			lin := &Lin{blob: t.Blob, key: fmt.Sprint("b", t.Blob)}
			v, l := x.soloValid(t.Blob), x.soloState(lin)
			c.Decided["damaged content after crash"]++
			if v.panic != "" || l.panic != "" {
				c.bad(nil, "crash-panic", "loading or validating what the crash in phase %d left at %s panics: %s%s", ph-1, n, v.panic, l.panic)
				continue
			}
			if v.err == nil && l.err == nil && c.collides(t.Blob, hist[n]) {
				c.Decided["mixture with all checksums right"]++
			} else if v.err == nil && l.err == nil {
				c.bad(nil, "passes-off", "after the crash in phase %d, %s holds %d bytes that are neither an earlier complete content nor the complete new font, yet loading and validation accept them", ph-1, n, len(x.blobs[t.Blob].data))
			}
			hist[n][t.Blob] = true // what later phases may legitimately still find
		}
	}
	// Operations of later phases see exactly the verdict of the surviving bytes.
	c.verdicts(false)
}

// collides: the content has the very directory of a complete one and differs in table data only, yet every recorded
// checksum matches. The sums of the format do not depend on the order of words, so a mixture of old and new sectors
// can, rarely, come to that, and no validation could tell.
func (c *checker) collides(id int, hist map[int]bool) bool {
	b := c.x.blobs[id].data
	recs, err := sfnt.Directory(b)
	if err != nil || sfnt.Verdict(b) != "" {
		return false
	}
	n := 12 + 16*len(recs)
	for h := range hist {
		if f := c.x.blobs[h].data; h != id && len(f) >= n && bytes.Equal(f[:n], b[:n]) {
			return true
		}
	}
	return false
}

// lostPadding: the content is a complete one with trailing zero bytes, outside every table, lost or added.
func (c *checker) lostPadding(id int, hist map[int]bool) bool {
	b := c.x.blobs[id].data
	for h := range hist {
		f := c.x.blobs[h].data
		n := min(len(b), len(f))
		if !bytes.Equal(b[:n], f[:n]) || len(bytes.Trim(f[n:], "\x00")) > 0 || len(bytes.Trim(b[n:], "\x00")) > 0 {
			continue
		}
		recs, err := sfnt.Directory(f)
		end := uint64(0)
		for _, r := range recs {
			end = max(end, uint64(r.Off)+uint64(r.Length))
		}
		if err == nil && end <= uint64(len(b)) {
			return true
		}
	}
	return false
}

// handles (C14).
func (c *checker) handles() {
	for _, e := range c.x.Events {
		if e.Before == nil || e.Skipped || e.Crashed {
			continue
		}
		c.Decided["file operations"]++
		if e.OpenAfter != e.OpenBefore {
			c.bad(e, "handle", "%d file handles open before, %d after", e.OpenBefore, e.OpenAfter)
		}
		target := ""
		if e.Op.K == "writef" {
			target = cleanName(e.Op.File)
		}
		for _, n := range sortedNames(e.Before) {
			b := e.Before[n]
			a, ok := e.After[n]
			if n == target {
				continue
			}
			if !ok {
				c.bad(e, "removed", "file %s is gone", n)
			} else if a.Inode != b.Inode || a.Writes != b.Writes || a.Blob != b.Blob {
				c.bad(e, "changed", "file %s was modified", n)
			}
		}
		for _, n := range sortedNames(e.After) {
			if _, ok := e.Before[n]; !ok && n != target && e.Undeletable == 0 {
				c.bad(e, "extra", "file %s was left behind", n)
			}
		}
		if e.Op.K != "writef" && len(e.Creates) > 0 {
			sort.Strings(e.Creates)
			c.bad(e, "opened-for-writing", "opened %s for writing", strings.Join(e.Creates, ", "))
		}
	}
}

func cleanName(s string) string { return strings.TrimPrefix(s, "./") }

var _ = unitype.Parse
