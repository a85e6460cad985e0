package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// resetter writes the code with which the simulation returns the variables of one package to what they are
// when a process starts, and back to what they were.
type resetter struct {
	on    bool
	info  *types.Info
	order map[types.Object]int // place in the order of initialisation
	zero  []string             // statements
	init  map[int]string       // place: statement
	vars  []string
	inits []string
	n     int
	pkg   string
}

func newResetter(p *pkgInfo, info *types.Info) *resetter {
	r := &resetter{on: hookReset && p.Name != "main" && !strings.HasPrefix(p.ImportPath, module+"/truecli"), info: info, order: map[types.Object]int{}, init: map[int]string{}, pkg: p.ImportPath}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			r.order[v] = i
		}
	}
	return r
}

// file handles one file and returns what to append to it.
func (r *resetter) file(f *ast.File, src []byte, tf *token.File, edits *[]edit) string {
	if !r.on {
		return ""
	}
	var tail strings.Builder
	text := func(e ast.Expr) string {
		from, to := tf.Offset(e.Pos()), tf.Offset(e.End())
		var sub []edit
		for _, ed := range *edits {
			if ed.off >= from && ed.end <= to {
				ed.off, ed.end = ed.off-from, ed.end-from
				sub = append(sub, ed)
			}
		}
		return string(apply(src[from:to], sub))
	}
	embeds := bytes.Contains(src, []byte("//go:embed"))
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil || d.Name.Name != "init" {
				continue
			}
			r.n++
			name := fmt.Sprintf("verifInit_%d", r.n)
			*edits = append(*edits, edit{tf.Offset(d.Name.Pos()), tf.Offset(d.Name.End()), name, len(*edits)})
			fmt.Fprintf(&tail, "func init() { %s() }\n", name)
			r.inits = append(r.inits, name)
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				s := s.(*ast.ValueSpec)
				skip, place := false, -1
				for _, n := range s.Names {
					obj := r.info.Defs[n]
					if obj == nil || n.Name == "_" || types.Identical(obj.Type(), types.Universe.Lookup("error").Type()) {
						// Errors are compared by identity: they stay the same.
						skip = skip || len(s.Values) == 1 && len(s.Names) > 1
						continue
					}
				}
				if skip || embeds && len(s.Values) == 0 {
					continue
				}
				for k, n := range s.Names {
					obj := r.info.Defs[n]
					if obj == nil || n.Name == "_" || types.Identical(obj.Type(), types.Universe.Lookup("error").Type()) {
						continue
					}
					r.vars = append(r.vars, n.Name)
					if len(s.Values) == 0 {
						r.n++
						fn := fmt.Sprintf("verifReset_%d", r.n)
						fmt.Fprintf(&tail, "func %s() { %s = *new(%s) }\n", fn, n.Name, text(s.Type))
						r.zero = append(r.zero, fn)
						continue
					}
					place = r.order[obj]
					if _, ok := r.init[place]; ok {
						continue // a, b = f()
					}
					lhs, rhs := n.Name, s.Values[min(k, len(s.Values)-1)]
					if len(s.Values) < len(s.Names) {
						var l []string
						for _, n := range s.Names {
							l = append(l, n.Name)
						}
						lhs = strings.Join(l, ", ")
					}
					r.n++
					fn := fmt.Sprintf("verifReset_%d", r.n)
					fmt.Fprintf(&tail, "func %s() { %s = %s }\n", fn, lhs, text(rhs))
					r.init[place] = fn
				}
			}
		}
	}
	return tail.String()
}

// register returns the code that announces the package's variables to the simulation.
func (r *resetter) register() string {
	if !r.on || len(r.vars)+len(r.inits) == 0 {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "\nfunc init() {\n\tverifrt.OnReset(%q, func() func() {\n", r.pkg)
	for i, v := range r.vars {
		fmt.Fprintf(&b, "\t\tverifV%d := %s\n", i, v)
	}
	for _, fn := range r.zero {
		fmt.Fprintf(&b, "\t\t%s()\n", fn)
	}
	for i := range r.info.InitOrder {
		if fn := r.init[i]; fn != "" {
			fmt.Fprintf(&b, "\t\t%s()\n", fn)
		}
	}
	for _, fn := range r.inits {
		fmt.Fprintf(&b, "\t\t%s()\n", fn)
	}
	b.WriteString("\t\treturn func() {\n")
	for i, v := range r.vars {
		fmt.Fprintf(&b, "\t\t\t%s = verifV%d\n", v, i)
	}
	b.WriteString("\t\t}\n\t})\n}\n")
	return b.String()
}
