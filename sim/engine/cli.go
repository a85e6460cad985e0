package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/sirupsen/logrus"

	"verifsim/prng"
	"verifsim/rt"
	"verifsim/sfnt"
	"verifsim/simos"
)

// commandLine (C17): one invocation of the command-line tool.
func (g *gen) commandLine() {
	r := g.r
	g.reset()
	bad := 4
	if r.P(1, 2) {
		bad = 1 << 30
	}
	g.anyFont(true, 1, bad)
	if r.P(1, 3) {
		g.anyFont(true, 1, 3)
	}
	if f := &g.p.Fonts[0]; f.Raw == nil && len(f.Muts) == 0 && r.P(1, 10) {
		// A font that loads, but that some or all commands must fail for.
		if r.P(1, 3) {
			f.Muts = []Mut{{K: "dir", T: prng.Pick(r, "cmap", "post", "OS/2", "prep", "name", "cvt ", "fpgm"), F: 1, V: g.u53() & 0xffffffff}}
		} else {
			f.Muts = []Mut{{K: "names", V: g.u53()}}
		}
		f.Muts = append(f.Muts, Mut{K: "fix", F: 3})
		g.models[0], g.bytes[0] = nil, f.Bytes()
	}
	g.fontFiles()
	g.p.Files = append(g.p.Files, FileInit{Name: "junk.bin", Font: -1, Len: r.N(2000), Seed: g.u53()})
	outs := []string{"readwrite.ttf", "subset.ttf", "subset_gids.ttf", "subset_runes.ttf", "o.ttf"}
	for _, o := range outs {
		switch r.N(4) {
		case 0:
			g.p.Files = append(g.p.Files, FileInit{Name: o, Font: r.N(len(g.p.Fonts))})
		case 1:
			g.p.Files = append(g.p.Files, FileInit{Name: o, Font: -1, Len: r.N(3 * g.sizes[0]), Seed: g.u53()})
		}
	}
	if r.P(1, 3) {
		g.p.Chunk = g.u53()
	}
	if r.P(1, 2) {
		g.p.MapSeed = g.u53()
	}
	in, fi := "font0.ttf", 0
	switch {
	case r.P(1, 4):
		fi = r.N(len(g.p.Fonts))
		in = "font" + string(rune('0'+fi)) + ".ttf"
	case r.P(1, 12):
		in = prng.Pick(r, "junk.bin", "missing.ttf", "", "./font0.ttf", outs[r.N(len(outs))])
	}
	// How much I/O does loading this file need?
	g.p.Pre = []Op{{K: "load", R: 0, Via: "file", File: in}}
	ev := g.probe()
	g.p.Pre = nil
	reads := max(1, ev[0].DiskEvents/2)
	s := &sreg{font: fi, n: 20}
	if m := g.models[fi]; m != nil {
		s.n = m.N
	}
	c := &CLI{}
	writes := true
	cmd := r.N(12)
	if g.p.Prop == "C20" && r.P(1, 2) {
		cmd = 11 // info
	}
	switch cmd {
	case 0, 1:
		c.Args = []string{"readwrite", in}
	case 2, 3:
		c.Args = []string{"subset", "simple", in}
	case 4, 5, 6:
		c.Args = []string{"subset", "gids", in}
		for _, v := range g.glyphs(s) {
			c.Args = append(c.Args, strconv.Itoa(v))
		}
		if r.P(1, 10) { // a long command line
			for n := r.N(600); n > 0; n-- {
				c.Args = append(c.Args, strconv.Itoa(r.N(s.n+2)))
			}
		}
		if r.P(1, 10) {
			c.Args = append(c.Args, prng.Pick(r, "x", "", "1x", "-1", "0x10", "1.0", " 1", "65536", "65537", "4294967296", "99999999999999999999", "007"))
		}
	case 7, 8, 9:
		var t []rune
		for _, q := range g.runes(s) {
			if utf8.ValidRune(q) {
				t = append(t, q)
			}
		}
		if len(t) > 0 && t[0] == '-' {
			t = append([]rune{'A'}, t...)
		}
		if r.P(1, 10) && len(t) > 0 {
			for n := r.N(600); n > 0; n-- {
				t = append(t, prng.Pick(r, prng.Pick(r, t...), rune(0x20+r.N(0x250)), rune(0x4e00+r.N(200))))
			}
		}
		c.Args = []string{"subset", "runes", in, string(t)}
		if r.P(1, 12) {
			c.Args[3] += prng.Pick(r, "\xff", "\x80a", "\xed\xa0\x80")
		}
		switch r.N(6) {
		case 0:
			c.Args = append(c.Args, "-o", prng.Pick(r, "o.ttf", "out/o.ttf", in, "subset_runes.ttf", ""))
		case 1:
			c.Args = append([]string{"subset", "runes", "--outfile=o.ttf"}, c.Args[2:]...)
		}
	case 10:
		writes = false
		c.Args = []string{"validate", in}
		if f := &g.p.Fonts[fi]; f.Raw == nil && len(f.Muts) == 0 && r.P(1, 2) {
			f.Muts = g.decay(g.bytes[fi])
			g.models[fi], g.bytes[fi] = nil, f.Bytes()
			g.sizes[fi] = len(g.bytes[fi])
		}
	default:
		writes = false
		c.Args = []string{"info", in}
		for _, t := range append([]string{"cmappings"}, infoTables[:10]...) {
			if r.P(1, 3) {
				c.Args = append(c.Args, "--"+t)
			}
		}
	}
	if r.P(1, 25) { // wrong usage
		switch r.N(4) {
		case 0:
			c.Args = c.Args[:len(c.Args)-1]
		case 1:
			c.Args = c.Args[:min(len(c.Args), 1+r.N(2))]
		case 2:
			c.Args[0] = prng.Pick(r, "sub", "Readwrite", "", "write")
		default:
			c.Args = append(c.Args, "--nonsense")
		}
	}
	if r.P(1, 8) {
		c.Args = append(c.Args, "--loglevel", prng.Pick(r, "debug", "trace", "x"))
	}
	if g.p.Prop == "C17" && r.P(2, 3) || g.p.Prop == "C20" && r.P(1, 4) {
		if writes && r.P(1, 2) {
			f := g.diskWriteFault(g.sizes[fi])
			if f.Kind == "close" {
				f.Nth = 1 + r.N(2) // the first file closed is the input
			}
			c.DF = append(c.DF, f)
		} else {
			f := g.diskReadFault(g.sizes[fi], reads, reads)
			if f.Nth > 0 && r.P(1, 2) { // a command may read its input more than once
				f.Nth += prng.Pick(r, 1, 1, reads, r.N(4*reads))
			}
			c.DF = append(c.DF, f)
		}
		if r.P(1, 8) {
			c.DF = append(c.DF, g.diskReadFault(g.sizes[fi], reads, reads))
		}
	}
	g.p.CLI = c
}

// command is what a command line asks for, according to the tool's documentation.
type command struct {
	name  string // readwrite, simple, gids, runes, validate, info; "": not a proper command line
	usage bool   // the command line is certainly wrong
	in    string
	out   string
	op    *Op
}

func parseArgs(args []string) (c command) {
	var pos []string
	out := ""
	outSet := false
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--loglevel" || a == "-o":
			if i+1 >= len(args) {
				c.usage = true
				return
			}
			i++
			if a == "-o" {
				out, outSet = args[i], true
			}
		case strings.HasPrefix(a, "--outfile="):
			out, outSet = a[len("--outfile="):], true
		case len(a) > 1 && a[0] == '-':
			known := false
			for _, t := range append([]string{"cmappings"}, infoTables[1:10]...) {
				known = known || a == "--"+t && len(args) > 0 && args[0] == "info"
			}
			known = known || a == "--trec" && args[0] == "info"
			if !known {
				c.usage = true
				return
			}
		default:
			pos = append(pos, a)
		}
	}
	if len(pos) == 0 {
		return
	}
	sub := ""
	switch pos[0] {
	case "subset":
		if len(pos) < 2 {
			return
		}
		sub, pos = pos[1], pos[2:]
		if sub != "simple" && sub != "gids" && sub != "runes" {
			return
		}
	case "readwrite", "validate", "info":
		sub, pos = pos[0], pos[1:]
	default:
		return
	}
	if outSet && sub != "runes" {
		c.usage = true
		return
	}
	need := 1
	if sub == "gids" || sub == "runes" {
		need = 2
	}
	if len(pos) < need {
		c.usage = true
		return
	}
	c.name, c.in = sub, pos[0]
	switch sub {
	case "readwrite":
		c.out = "readwrite.ttf"
	case "simple":
		c.out, c.op = "subset.ttf", &Op{K: "first", N: 256}
	case "gids":
		c.out = "subset_gids.ttf"
		c.op = &Op{K: "keep", G: []int{}}
		for _, a := range pos[1:] {
			v, err := strconv.ParseUint(a, 10, 32)
			if err != nil {
				c.usage = true
				return
			}
			if v > 0xffff {
				c.name = "gids-beyond" // no font has such a glyph: a refusal or no glyph, but no other glyph
				continue
			}
			c.op.G = append(c.op.G, int(v))
		}
	case "runes":
		c.out = "subset_runes.ttf"
		if outSet {
			c.out = out
		}
		c.op = &Op{K: "keepr", S: []rune(pos[1])}
	}
	return
}

// RunCLI executes main once under the simulator and judges what it did. It can be called once per process.
func RunCLI(p *Plan, verbose bool, main func()) *Result {
	x := newExec(p, false)
	d := x.disk
	before := x.files()
	c := parseArgs(p.CLI.Args)

	// What the program prints is collected.
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return &Result{Broken: err.Error()}
	}
	defer null.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		return &Result{Broken: err.Error()}
	}
	printed := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(pr)
		pr.Close()
		printed <- string(b)
	}()
	so, se, args := os.Stdout, os.Stderr, os.Args
	os.Stdout, os.Stderr = pw, null
	simos.StdoutSink = func(b []byte) { pw.Write(b) }
	os.Args = append([]string{"truecli"}, p.CLI.Args...)
	simos.Args = os.Args
	restore := func() { os.Stdout, os.Stderr, os.Args = so, se, args }

	status, how := 0, ""
	exited := false
	s := &rt.Sim{MapSeed: p.MapSeed, EnvSeed: prng.Mix(p.EnvSeed, 5), SchedSeed: prng.Mix(p.EnvSeed, 7), StepLimit: x.limit()}
	simos.OnExit = func(code int) {
		if !exited {
			exited, status, how = true, code, "exit"
			x.PhaseFiles = append(x.PhaseFiles, x.files())
			d.Crashed = true // what deferred functions still do has no effect
		}
		rt.Exit()
	}
	setLog(0)
	logrus.StandardLogger().ExitFunc = simos.Exit
	fired, steps := 0, int64(0)
	s.Run([]func(){func() {
		rt.BeginOp(0)
		d.Scope(0, 1, p.CLI.DF)
		defer func() {
			if r := recover(); r != nil && !exited {
				switch r.(type) {
				case rt.Hang:
					how = "hang"
				case rt.Deadlock:
					status, how = 2, "deadlock"
				default:
					status, how = 2, "panic: "+fmt.Sprint(r)
				}
			}
			steps = rt.OpSteps()
			for _, n := range d.EndScope(0, 1) {
				fired += n
			}
			rt.EndOp()
		}()
		main()
		how = "return"
	}})
	simos.OnExit = nil
	restore()
	simos.StdoutSink = nil
	logrus.SetOutput(null)
	pw.Close()
	stdout := <-printed
	if s.ChildPanic != nil && !exited {
		status, how = 2, fmt.Sprint("a goroutine panicked: ", s.ChildPanic)
	}
	setLog(0)
	logrus.SetOutput(null)
	x.Steps += s.TotalSteps
	x.SimTime = s.SimTime()
	for k, v := range d.Fired {
		x.Fired[k] += v
	}
	wfired := d.MustReport
	after := x.files()
	if exited {
		after = x.PhaseFiles[len(x.PhaseFiles)-1]
	}

	res := &Result{Decided: map[string]int{}, Fired: x.Fired, Ops: map[string]int{}}
	at := fmt.Sprintf("truecli %q", p.CLI.Args)
	if len(at) > 300 {
		at = at[:300] + "..."
	}
	bad := func(class, f string, a ...any) {
		res.Violations = append(res.Violations, Violation{Class: class, Msg: fmt.Sprintf(f, a...), At: at})
	}
	res.Printed = hashBytes([]byte(stdout)) ^ uint64(status)
	if p.CLI.Twin {
		return res
	}
	if p.Prop == "C20" {
		x.printedTruth(p, c, status, how, stdout, fired, res, bad)
	} else {
		x.exitTruth(p, c, status, how, fired, wfired, before, after, res, bad)
	}
	cmdName := c.name
	if cmdName == "" || c.usage {
		cmdName = "(wrong usage)"
	}
	res.Ops[fmt.Sprintf("%s: exit status %d", cmdName, status)]++
	res.Steps, res.Solo, res.SimTime = x.Steps, x.Solo, x.SimTime
	if x.Broken != "" {
		res.Broken = x.Broken
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s %d %s;", cmdName, status, how)
	for _, n := range sortedNames(after) {
		fmt.Fprintf(h, "%s=%x;", n, hashBytes(x.blobs[after[n].Blob].data))
	}
	res.Visible = h.Sum64()
	fmt.Fprintf(h, "%d %d", steps, fired)
	res.Outcome = h.Sum64()
	g := fnv.New64a()
	fmt.Fprintf(g, "%s %d %d %d", cmdName, status, steps, fired)
	res.Sig = g.Sum64()
	if verbose {
		res.Log = Describe(p)
		res.Log = append(res.Log, fmt.Sprintf("-> exit status %d (%s), %d faults fired", status, how, fired))
		for i, s := range d.Log {
			if i > 200 {
				break
			}
			res.Log = append(res.Log, "disk: "+s)
		}
		var ks []string
		for k, n := range x.Fired {
			ks = append(ks, fmt.Sprintf("fired: %s x%d", k, n))
		}
		sort.Strings(ks)
		res.Log = append(res.Log, ks...)
	}
	return res
}

// exitTruth judges the exit status and the files (C17).
func (x *Exec) exitTruth(p *Plan, c command, status int, how string, fired, wfired int, before, after map[string]FileState, res *Result, bad func(class, f string, a ...any)) {
	ck := &checker{x: x, parse: map[int]*parsed{}, verd: map[int]string{}, Decided: res.Decided}
	decide := func(s string) { res.Decided[s]++ }
	if how == "hang" {
		bad("hang", "the command did not finish within %d statements", x.limit())
	}
	// Nothing but the output file changes.
	outName := ""
	if c.out != "" && !c.usage {
		outName = cleanName(c.out)
	}
	decide("other files compared")
	for n, st := range before {
		if n == outName {
			continue
		}
		if t, ok := after[n]; !ok {
			bad("other-file", "the command removed %s", n)
		} else if t.Blob != st.Blob {
			bad("other-file", "the command changed %s", n)
		}
	}
	for _, n := range sortedNames(after) {
		if _, ok := before[n]; !ok && n != outName && x.Fired["disk-remove"] == 0 {
			bad("other-file", "the command left an additional file %s", n)
		}
	}

	inBlob := -1
	if st, ok := before[cleanName(c.in)]; ok && c.in != "" {
		inBlob = st.Blob
	}
	var lin *Lin
	var load *soloRes
	var model *sfnt.Font
	if inBlob >= 0 {
		lin = &Lin{blob: inBlob, key: fmt.Sprint("b", inBlob)}
		load = x.soloState(lin)
		model, _ = x.modelOf(inBlob)
		if c.op != nil {
			lin = lin.with(*c.op)
			model = applyModel(model, c.op)
		}
	}
	proper := c.name != "" && !c.usage
	if how != "hang" && status == 0 {
		switch {
		case c.usage:
			decide("wrong usage refused")
			bad("usage", "exit status 0 although the arguments are wrong")
		case !proper: // help and the like
			decide("no command")
		case inBlob < 0:
			bad("ghost", "exit status 0 although there is no file %q", c.in)
		case load.panic != "" || load.hang:
			// decided elsewhere
		case load.err != nil:
			bad("unloadable", "exit status 0 although the input cannot be loaded: %v", load.err)
		case wfired > 0:
			bad("unreported", "exit status 0 although %d faults hit the writing of the output", wfired)
		default:
			decide("successes")
			if c.name == "validate" {
				if v := ck.verdict(inBlob); v != "" && !severalHeads(x.blobs[inBlob].data) {
					bad("invalid-accepted", "exit status 0 for an invalid font: %s", v)
				}
			}
			if c.out == "" {
				break
			}
			st, ok := after[outName]
			if !ok {
				bad("no-output", "exit status 0 but there is no file %s", c.out)
				break
			}
			data := x.blobs[st.Blob].data
			if v := ck.verdict(st.Blob); v != "" && !severalHeads(data) {
				bad("invalid-output", "exit status 0 but %s is not valid: %s", c.out, v)
				break
			}
			want := x.soloWrite(lin)
			switch {
			case want.panic != "" || want.hang:
			case want.err != nil:
				bad("impossible", "exit status 0 but what the command describes fails: %v", want.err)
			case bytes.Equal(want.out, data):
			case model != nil:
				f, problems := sfnt.Parse(data)
				if f == nil {
					bad("output", "%s cannot be read: %s", c.out, strings.Join(problems, "; "))
				} else if df := sfnt.Diff(f, model.Written()); len(df) > 0 {
					bad("output", "%s is not what the command describes: %s", c.out, strings.Join(df, "; "))
				}
			default:
				bad("output", "%s (%d bytes) is not what the command describes (%d bytes, first difference at %d)", c.out, len(data), len(want.out), firstByteDiff(data, want.out))
			}
			if model != nil {
				decide("outputs compared with the model")
				f, problems := sfnt.Parse(data)
				if f == nil {
					bad("output", "%s cannot be read: %s", c.out, strings.Join(problems, "; "))
				} else if df := sfnt.Diff(f, model.Written()); len(df) > 0 {
					bad("output", "%s is not what the command describes: %s", c.out, strings.Join(df, "; "))
				}
			}
		}
	}
	if how != "hang" && status != 0 {
		decide("failures")
		// Nothing went wrong, so the command must not say that something did.
		if proper && fired == 0 && inBlob >= 0 && ck.knownGood(inBlob) && !(c.name == "gids-beyond") && !(c.out == "" && c.name == "runes") {
			bad("needless:"+c.name, "exit status %d (%s) although the input is intact and nothing went wrong", status, how)
		}
	}
}

// printedTruth judges what the command printed (C20).
func (x *Exec) printedTruth(p *Plan, c command, status int, how, stdout string, fired int, res *Result, bad func(class, f string, a ...any)) {
	decide := func(s string) { res.Decided[s]++ }
	if how == "hang" || c.name == "" || c.usage {
		return
	}
	for _, a := range p.CLI.Args {
		if a == "debug" {
			return // the log is printed as well, with addresses in it
		}
	}
	inBlob := -1
	for i, f := range p.Files {
		if f.Name == cleanName(c.in) && f.Font >= 0 {
			inBlob = x.fonts[p.Files[i].Font]
		}
	}
	if c.name == "info" && status == 0 && inBlob >= 0 {
		x.infoTruth(p, inBlob, stdout, decide, bad)
	}
	if fired > 0 && status != 0 {
		return
	}
	// The same command line on the same input, in other circumstances.
	q := p.Clone()
	q.CLI.Twin = true
	q.CLI.DF = nil
	q.MapSeed = prng.Mix(p.MapSeed, 1) >> 11
	q.EnvSeed = prng.Mix(p.EnvSeed, 2) >> 11
	q.Chunk = prng.Mix(p.Chunk, 3) >> 11 * (p.EnvSeed & 1)
	q.Files = q.Files[:0:0]
	for _, f := range p.Files {
		if f.Name == cleanName(c.in) || f.Name != cleanName(c.out) {
			q.Files = append(q.Files, f)
		}
	}
	r, err := runElsewhere(q)
	if err != nil {
		res.Broken = "the command line could not be executed again: " + err.Error()
		return
	}
	decide("printed the same in other circumstances")
	if r.Printed != res.Printed {
		if fired > 0 {
			bad("fault-shows", "the command ran into a fault and exits with status 0, but what it printed is not what it prints when nothing goes wrong")
			return
		}
		bad("nondeterministic", "the same command on the same input, without any fault, prints something else or exits with another status when the map order, clock, chunking of reads or the previous output file differ")
	}
}

// runElsewhere executes a plan in a fresh process.
func runElsewhere(p *Plan) (*Result, error) {
	f, err := os.CreateTemp("", "twin")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	b, err := json.Marshal(map[string]any{"plan": p})
	if err != nil {
		return nil, err
	}
	if _, err := f.Write(b); err != nil {
		return nil, err
	}
	f.Close()
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	out, err := exec.Command(exe, "exec", f.Name()).Output()
	if err != nil {
		return nil, err
	}
	i := bytes.Index(out, []byte("R {"))
	if i < 0 {
		return nil, fmt.Errorf("no result")
	}
	r := &Result{}
	return r, json.Unmarshal(bytes.TrimSpace(out[i+2:]), r)
}

var cmappings = [][2]int{{0, 3}, {1, 0}, {3, 1}}

// infoTruth compares the output of a successful info command with the font.
func (x *Exec) infoTruth(p *Plan, inBlob int, stdout string, decide func(string), bad func(class, f string, a ...any)) {
	want := ""
	var maps []map[rune]uint16
	mappings := false
	has := map[string]bool{}
	for _, a := range p.CLI.Args {
		has[a] = true
	}
	lin := &Lin{blob: inBlob, key: fmt.Sprint("b", inBlob)}
	r := x.solo("info:"+lin.key, func() *soloRes {
		f, err := x.build(lin)
		if err != nil {
			return &soloRes{err: err}
		}
		for _, t := range []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "glyf", "post", "name"} {
			if has["--"+t] {
				want += f.TableInfo(t)
			}
		}
		for _, pe := range cmappings {
			m := map[rune]uint16{}
			for c, g := range f.GetCmap(pe[0], pe[1]) {
				m[c] = uint16(g)
			}
			maps = append(maps, m)
		}
		return &soloRes{}
	})
	if r.err != nil || r.panic != "" || r.hang {
		return
	}
	mappings = has["--cmappings"]
	decide("table information compared")
	if !strings.HasPrefix(stdout, want) || !mappings && stdout != want {
		bad("table-info", "the output differs from the table information of the font, first at byte %d: %q, expected %q", firstByteDiff([]byte(stdout), []byte(want)), clip(stdout, want), clip(want, stdout))
		return
	}
	if !mappings {
		return
	}
	// One line per assignment, in any order; assignments to glyph 0 may be left out.
	lines := func(s string) map[string]int {
		out := map[string]int{}
		for _, l := range strings.Split(s, "\n") {
			if l != "" && !strings.Contains(l, ": 0 - ") {
				out[l]++
			}
		}
		return out
	}
	compare := func(what string, maps []map[rune]uint16) {
		var b strings.Builder
		for i, m := range maps {
			for c, g := range m {
				fmt.Fprintf(&b, "%d/%d,%d: %d - %c\n", i, cmappings[i][0], cmappings[i][1], g, c)
			}
		}
		got, exp := lines(stdout[len(want):]), lines(b.String())
		var diff []string
		for l, n := range exp {
			if got[l] != n {
				diff = append(diff, fmt.Sprintf("%q %d times instead of %d", l, got[l], n))
			}
		}
		for l, n := range got {
			if exp[l] == 0 {
				diff = append(diff, fmt.Sprintf("%q %d times instead of 0", l, n))
			}
		}
		decide(what)
		if len(diff) > 0 {
			sort.Strings(diff)
			bad("cmappings", "the listed mappings are not those of the font: %d lines differ, such as %s", len(diff), diff[0])
		}
	}
	compare("mappings compared with the library", maps)
	model, _ := x.modelOf(inBlob)
	if model == nil {
		return
	}
	var mm []map[rune]uint16
	for i, pe := range cmappings {
		s, uniq := model.Find(pe[0], pe[1])
		if s == nil {
			mm = append(mm, map[rune]uint16{})
			continue
		}
		m, exact := s.RuneMap()
		if !exact || !uniq {
			m = maps[i]
		}
		mm = append(mm, m)
	}
	compare("mappings compared with the model", mm)
}

// clip shows the part of s around the first difference from t.
func clip(s, t string) string {
	i := max(0, firstByteDiff([]byte(s), []byte(t))-10)
	i = min(i, len(s))
	return s[i:min(len(s), i+60)]
}
