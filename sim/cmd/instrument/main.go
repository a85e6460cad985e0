// Command instrument rewrites the current sources of the code under test for simulation and emits a
// 'go build -overlay' file. The repository itself is not modified.
//
//	instrument -repo /repo -sim /verif/sim -out DIR
//
// What it does to every non-test source file of the packages under test:
//   - inserts a scheduling hook before every statement;
//   - makes every range over a map iterate in an order dictated by the simulation;
//   - replaces imports of os, io/ioutil and sync with simulated equivalents;
//   - turns go statements into simulated tasks;
//   - lets the simulation return the variables of the package to what they are when a process starts.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

var replaceImport = map[string]string{
	"os":           "verifsim/simos",
	"io/ioutil":    "verifsim/simioutil",
	"sync":         "verifsim/simsync",
	"time":         "verifsim/simtime",
	"math/rand":    "verifsim/simrand",
	"math/rand/v2": "verifsim/simrandv2",
	"crypto/rand":  "verifsim/simcrand",
	"maps":         "verifsim/simmaps",
	"log":          "verifsim/simlog",
}

var wanted = []string{
	"github.com/unidoc/unitype",
	"github.com/unidoc/unitype/truecli/cmd",
}

var (
	hookMaps  bool
	hookReset bool
	simDir    string
)

type edit struct {
	off, end int
	text     string
	seq      int
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.StringVar(&simDir, "sim", "", "simulator module directory")
	out := flag.String("out", "", "output directory")
	flag.BoolVar(&hookMaps, "maps", true, "hook uses of maps")
	flag.BoolVar(&hookReset, "reset", true, "make package state resettable")
	pkgsFlag := flag.String("pkgs", strings.Join(wanted, ","), "packages to instrument")
	flag.Parse()
	targets := strings.Split(*pkgsFlag, ",")
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,ImportMap,Error"}, targets...)...)
	cmd.Dir = simDir
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail("go list output: %v", err)
		}
		if p.Error != nil {
			fail("package %s: %s", p.ImportPath, p.Error.Err)
		}
		q := p
		pkgs[p.ImportPath] = &q
	}
	// Packages of the repository that the targets pull in are under test as well.
	all := targets
	for path := range pkgs {
		if inRepo(path) && !contains(targets, path) {
			all = append(all, path)
		}
	}
	sort.Strings(all[len(targets):])
	overlay := map[string]string{}
	siteBase := 0
	for _, path := range all {
		p := pkgs[path]
		if p == nil {
			fail("package %s not found", path)
		}
		siteBase = instrumentPkg(p, pkgs, *out, overlay, siteBase)
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("%d sites\n", siteBase)
}

const module = "github.com/unidoc/unitype"

func inRepo(path string) bool { return path == module || strings.HasPrefix(path, module+"/") }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func instrumentPkg(p *pkgInfo, pkgs map[string]*pkgInfo, out string, overlay map[string]string, base int) int {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}
	for _, name := range p.GoFiles {
		full := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(full)
		if err != nil {
			fail("%v", err)
		}
		f, err := parser.ParseFile(fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail("%v", err)
		}
		files = append(files, f)
		srcs[full] = src
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fail("type check %s: %v", p.ImportPath, err)
	}
	var names []string
	rangeCtr, selCtr := 0, 0
	rs := newResetter(p, info)
	for i, f := range files {
		full := filepath.Join(p.Dir, p.GoFiles[i])
		src := srcs[full]
		tf := fset.File(f.Pos())
		var edits []edit
		add := func(pos token.Pos, end token.Pos, text string) {
			edits = append(edits, edit{tf.Offset(pos), tf.Offset(end), text, len(edits)})
		}
		lineCount := map[int]int{}
		hook := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				line := tf.Line(s.Pos())
				name := fmt.Sprintf("%s:%d", p.GoFiles[i], line)
				if c := lineCount[line]; c > 0 {
					name += "#" + strconv.Itoa(c)
				}
				lineCount[line]++
				add(s.Pos(), s.Pos(), fmt.Sprintf("verifrt.Y(%d); ", base+len(names)))
				names = append(names, name)
			}
		}
		// Uses of maps: m[k] becomes m[verifrt.K(site, m, k)], where m has no effects of its own.
		written := map[ast.Expr]bool{}
		two := map[ast.Expr]bool{}      // receive expressions that give two values
		selected := map[ast.Node]bool{} // channel operations that are cases of a select
		write := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			written[e] = true
		}
		mapUse := func(m, k ast.Expr, w bool) {
			tv, kt := info.Types[m], info.Types[k]
			if tv.Type == nil || kt.Type == nil || !pure(m) {
				return
			}
			mt, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				return
			}
			if b, ok := kt.Type.(*types.Basic); !types.Identical(kt.Type, mt.Key()) && !(ok && b.Info()&types.IsUntyped != 0) {
				return
			}
			f := "K"
			if w {
				f = "KW"
			}
			text := string(src[tf.Offset(m.Pos()):tf.Offset(m.End())])
			add(k.Pos(), k.Pos(), fmt.Sprintf("verifrt.%s(%d, %s, ", f, base+len(names), text))
			add(k.End(), k.End(), ")")
			names = append(names, fmt.Sprintf("%s:%d map %s", p.GoFiles[i], tf.Line(k.Pos()), text))
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					write(l)
				}
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					two[n.Rhs[0]] = true
				}
			case *ast.IncDecStmt:
				write(n.X)
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && info.Types[n.Fun].IsBuiltin() {
					add(n.Pos(), n.Fun.End(), "verifrt.Close")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && len(n.Args) == 2 && info.Types[n.Fun].IsBuiltin() && hookMaps {
					mapUse(n.Args[0], n.Args[1], true)
				}
			case *ast.IndexExpr:
				if hookMaps {
					mapUse(n.X, n.Index, written[n])
				}
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(n.Body.Lbrace+1, n.Body.Lbrace+1, fmt.Sprintf("verifrt.Y(%d); ", base+len(names)))
					names = append(names, fmt.Sprintf("%s:%d", p.GoFiles[i], tf.Line(n.Pos())))
				}
			case *ast.BlockStmt:
				hook(n.List)
			case *ast.CaseClause:
				hook(n.Body)
			case *ast.CommClause:
				hook(n.Body)
			case *ast.GoStmt:
				// go f(args) -> evaluate function and arguments now, run as a task.
				args := n.Call.Args
				if len(args) == 0 {
					add(n.Pos(), n.Call.Fun.Pos(), "verifrt.Go(func() { ")
					add(n.End(), n.End(), " })")
					break
				}
				if info.Types[n.Call.Fun].IsBuiltin() {
					add(n.Pos(), n.Call.Pos(), "verifrt.Go(func() { ")
					add(n.End(), n.End(), " })")
					break
				}
				add(n.Pos(), n.Call.Fun.Pos(), "{ verifF := ")
				var call []string
				prev := n.Call.Fun.End()
				for k, a := range args {
					tv := info.Types[a]
					if tv.Value != nil || tv.IsNil() {
						// A constant takes the type of the parameter.
						call = append(call, string(src[tf.Offset(a.Pos()):tf.Offset(a.End())]))
						continue
					}
					v := fmt.Sprintf("verifA%d", k)
					add(prev, a.Pos(), "; "+v+" := ")
					prev = a.End()
					call = append(call, v)
				}
				ell := ""
				if n.Call.Ellipsis.IsValid() {
					ell = "..."
				}
				add(prev, n.End(), fmt.Sprintf("; verifrt.Go(func() { verifF(%s%s) }) }", strings.Join(call, ", "), ell))
			case *ast.SendStmt:
				if selected[n] {
					break
				}
				add(n.Pos(), n.Pos(), "verifrt.Send(")
				add(n.Chan.End(), n.Value.Pos(), ")(")
				add(n.End(), n.End(), ")")
			case *ast.UnaryExpr:
				if n.Op == token.ARROW && !selected[n] {
					f := "Recv"
					if two[n] {
						f = "Recv2"
					}
					add(n.Pos(), n.X.Pos(), "verifrt."+f+"(")
					add(n.End(), n.End(), ")")
				}
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					two[n.Values[0]] = true
				}
			case *ast.SelectStmt:
				// select -> switch over the outcome of a simulated select
				selCtr++
				v := fmt.Sprintf("verifS%d", selCtr)
				def := false
				for _, c := range n.Body.List {
					def = def || c.(*ast.CommClause).Comm == nil
				}
				text := func(e ast.Expr) string { return string(src[tf.Offset(e.Pos()):tf.Offset(e.End())]) }
				var list []string
				var heads []edit
				for _, c := range n.Body.List {
					c := c.(*ast.CommClause)
					head := fmt.Sprintf("case %d: ", len(list))
					recv := func(e ast.Expr) *ast.UnaryExpr {
						for {
							p, ok := e.(*ast.ParenExpr)
							if !ok {
								break
							}
							e = p.X
						}
						return e.(*ast.UnaryExpr)
					}
					switch s := c.Comm.(type) {
					case nil:
						head = "default: "
					case *ast.SendStmt:
						selected[s] = true
						list = append(list, fmt.Sprintf("verifrt.SendCase(%s)(%s)", text(s.Chan), text(s.Value)))
					case *ast.ExprStmt:
						u := recv(s.X)
						selected[u] = true
						list = append(list, fmt.Sprintf("verifrt.RecvCase(%s)", text(u.X)))
					case *ast.AssignStmt:
						u := recv(s.Rhs[0])
						selected[u] = true
						list = append(list, fmt.Sprintf("verifrt.RecvCase(%s)", text(u.X)))
						g, l := "Got", text(s.Lhs[0])
						if len(s.Lhs) == 2 {
							g, l = "Got2", l+", "+text(s.Lhs[1])
						}
						head += fmt.Sprintf("%s %s verifrt.%s(%s, %s); ", l, s.Tok, g, text(u.X), v)
					}
					heads = append(heads, edit{tf.Offset(c.Pos()), tf.Offset(c.Colon + 1), head, 0})
				}
				args := strings.Join(append([]string{strconv.FormatBool(def)}, list...), ", ")
				edits = append(edits, edit{tf.Offset(n.Pos()), tf.Offset(n.Body.Lbrace + 1), fmt.Sprintf("switch %s := verifrt.Select(%s); %s.Idx {", v, args, v), len(edits)})
				for _, h := range heads {
					h.seq = len(edits)
					edits = append(edits, h)
				}
			case *ast.RangeStmt:
				tv, ok := info.Types[n.X]
				if !ok {
					break
				}
				u := tv.Type.Underlying()
				if tp, ok := tv.Type.(*types.TypeParam); ok {
					u = tp.Underlying()
				}
				if _, ok := u.(*types.Chan); ok {
					rangeCtr++
					v := fmt.Sprintf("verifO%d", rangeCtr)
					text := func(e ast.Expr) string { return string(src[tf.Offset(e.Pos()):tf.Offset(e.End())]) }
					bind := "_, " + v + " := "
					tail := ""
					if n.Key != nil {
						bind = "verifV, " + v + " := "
						tail = text(n.Key) + " " + n.Tok.String() + " verifV; "
					}
					c := fmt.Sprintf("verifC%d", rangeCtr)
					add(n.For+token.Pos(len("for")), n.X.Pos(), " "+c+" := ")
					add(n.X.End(), n.Body.Lbrace+1, fmt.Sprintf("; ; { %sverifrt.Recv2(%s); if !%s { break }; %s", bind, c, v, tail))
					break
				}
				if _, ok := u.(*types.Map); !ok {
					break
				}
				rangeCtr++
				v := fmt.Sprintf("verifE%d", rangeCtr)
				bind := ""
				isBlank := func(e ast.Expr) bool {
					id, ok := e.(*ast.Ident)
					return e == nil || ok && id.Name == "_"
				}
				text := func(e ast.Expr) string { return string(src[tf.Offset(e.Pos()):tf.Offset(e.End())]) }
				op := n.Tok.String()
				var l, r []string
				if n.Key != nil && !isBlank(n.Key) {
					l = append(l, text(n.Key))
					r = append(r, v+".Key()")
				}
				if n.Value != nil && !isBlank(n.Value) {
					l = append(l, text(n.Value))
					r = append(r, v+".Val()")
				}
				if len(l) > 0 {
					bind = strings.Join(l, ", ") + " " + op + " " + strings.Join(r, ", ") + "; "
				}
				start := n.For + token.Pos(len("for"))
				add(start, n.X.Pos(), fmt.Sprintf(" _, %s := range verifrt.Iter(", v))
				add(n.X.End(), n.Body.Lbrace+1, fmt.Sprintf(") { if !%s.Live() { continue }; %s", v, bind))
			}
			return true
		})
		// What the simulated packages lack is taken from the real ones.
		real := map[string]string{}
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			path := pn.Imported().Path()
			if r, ok := replaceImport[path]; ok && !exports(simDir, r)[sel.Sel.Name] {
				name := "verifreal_" + strings.ReplaceAll(path, "/", "_")
				real[path] = name
				add(id.Pos(), id.End(), name)
			}
			return true
		})
		used := ""
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if r, ok := replaceImport[path]; ok {
				name := filepath.Base(path)
				if path == "math/rand/v2" {
					name = "rand"
				}
				text := strconv.Quote(r)
				if im.Name == nil {
					text = name + " " + text
				}
				add(im.Path.Pos(), im.Path.End(), text)
				if im.Name != nil {
					name = im.Name.Name
				}
				if name != "_" && name != "." {
					used += "var _ = " + name + ".VerifSim\n"
				}
			}
		}
		// Imports must precede other declarations: put the import right after the package clause and the
		// blank use at the end of the file.
		hdr := "; import verifrt \"verifsim/rt\""
		for _, path := range sortedKeys(real) {
			hdr += fmt.Sprintf("; import %s %q", real[path], path)
		}
		add(f.Name.End(), f.Name.End(), hdr)
		tail := rs.file(f, src, tf, &edits)
		body := apply(src, edits)
		body = append(body, []byte("\nvar _ = verifrt.Y\n"+used+tail)...)
		if i == len(files)-1 {
			body = append(body, []byte(rs.register())...)
		}
		if i == len(files)-1 {
			body = append(body, []byte("\nfunc init() { verifrt.RegisterSites("+strconv.Itoa(base)+", []string{"+quoteAll(names)+"}) }\n")...)
		}
		if p.Name == "main" {
			// An importable copy of package main, in the overlay only.
			body = bytes.Replace(body, []byte("package main"), []byte("package verifmain"), 1)
			if i == len(files)-1 {
				body = append(body, []byte("\n// VerifMain runs the program.\nfunc VerifMain() { main() }\n")...)
			}
			full = filepath.Join(p.Dir, "verifmain", p.GoFiles[i])
		}
		dst := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
		if err := os.WriteFile(dst, body, 0o644); err != nil {
			fail("%v", err)
		}
		overlay[full] = dst
	}
	return base + len(names)
}

var exported = map[string]map[string]bool{}

// exports returns the names a simulated package declares.
func exports(sim, path string) map[string]bool {
	if e := exported[path]; e != nil {
		return e
	}
	e := map[string]bool{}
	exported[path] = e
	dir := filepath.Join(sim, strings.TrimPrefix(path, "verifsim/"))
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, name := range names {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, parser.SkipObjectResolution)
		if err != nil {
			fail("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					e[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						e[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							e[n.Name] = true
						}
					}
				}
			}
		}
	}
	return e
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// pure says that evaluating the expression twice is the same as once.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	}
	return false
}

func quoteAll(ns []string) string {
	var b strings.Builder
	for i, n := range ns {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(strconv.Quote(n))
	}
	return b.String()
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// At one place, insertions come before replacements.
		if a, b := edits[i].end == edits[i].off, edits[j].end == edits[j].off; a != b {
			return a
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			if e.end <= pos {
				continue // inside a replaced region
			}
			fail("overlapping edits")
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes()
}
