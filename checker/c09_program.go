package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"

	"verif/checker/flow"
)

// renderer writes a symbolic text out for a list of given texts.
type renderer struct {
	x     *flow.Exec
	s     *flow.State
	list  *flow.Term
	texts []string
	bind  map[*flow.Term]string
	deep  int
}

func (r *renderer) text(t *flow.Term) (string, bool) {
	if r.deep++; r.deep > 10000 {
		return "", false
	}
	if v, ok := r.bind[t]; ok {
		return v, true
	}
	if v, ok := t.IsStr(); ok {
		return v, true
	}
	switch t.Op {
	case "conv", "iface":
		return r.text(t.Args[0])
	case "fmt":
		return r.text(t.Args[0])
	case "strcat":
		out := ""
		for _, a := range t.Args {
			v, ok := r.text(a)
			if !ok {
				return "", false
			}
			out += v
		}
		return out, true
	case "loopphi", "mphi":
		rec, sum := r.x.Rec[t], r.x.LoopSums[r.x.SymLoop[t]]
		if rec == nil || sum == nil || len(rec.Init) != 1 || len(sum.Iters) != 1 || r.s.Has("left:"+r.x.SymLoop[t]) {
			return "", false
		}
		over, elem, _ := sumElem(r.x, sum)
		step := sum.Iters[0].Steps[t]
		if over != r.list || step == nil {
			return "", false
		}
		cur := ""
		for i := range rec.Init {
			v, ok := r.text(i)
			if !ok {
				return "", false
			}
			cur = v
		}
		for _, p := range r.texts {
			o := r.bind
			r.bind = map[*flow.Term]string{elem: p, t: cur}
			for k, v := range o {
				if k != elem && k != t {
					r.bind[k] = v
				}
			}
			v, ok := r.text(step)
			r.bind = o
			if !ok {
				return "", false
			}
			cur = v
		}
		return cur, true
	}
	switch n := flow.CallName(t); {
	case strings.HasPrefix(n, "fmt.Sprintf") && len(t.Args) == 2:
		f, ok := r.text(t.Args[0])
		items, ok2 := r.items(t.Args[1])
		if !ok || !ok2 {
			return "", false
		}
		as := []any{}
		for _, i := range items {
			as = append(as, i)
		}
		return fmt.Sprintf(f, as...), true
	case strings.HasPrefix(n, "strconv.Quote"):
		v, ok := r.text(t.Args[0])
		return strconv.Quote(v), ok
	case strings.HasPrefix(n, "strings.Join"):
		items, ok := r.items(t.Args[0])
		sep, ok2 := r.text(t.Args[1])
		return strings.Join(items, sep), ok && ok2
	}
	return "", false
}

func (r *renderer) items(t *flow.Term) ([]string, bool) {
	t = unwrap(t)
	if t == r.list {
		return r.texts, true
	}
	ps, ok := pieces(r.x, t)
	if !ok {
		return nil, false
	}
	out := []string{}
	for _, p := range ps {
		switch {
		case p.One != nil:
			v, ok := r.text(unwrap(p.One))
			if !ok {
				return nil, false
			}
			out = append(out, v)
		case p.Loop != nil && p.Loop.Over == r.list && len(p.Loop.It) == 1 && !p.Loop.left(r.s):
			for _, e := range r.texts {
				o := r.bind
				r.bind = map[*flow.Term]string{p.Loop.Elem: e}
				for _, q := range p.Loop.It[0].Parts {
					if q.One == nil {
						return nil, false
					}
					v, ok := r.text(unwrap(q.One))
					if !ok {
						return nil, false
					}
					out = append(out, v)
				}
				r.bind = o
			}
		case p.Spread == r.list:
			out = append(out, r.texts...)
		default:
			return nil, false
		}
	}
	return out, true
}

// program checks the text of the program built for given plugins; false if
// the text cannot be written out.
func (c *C) program(x *flow.Exec, s *flow.State, pos token.Pos, src, plugins *flow.Term) bool {
	for _, names := range [][]string{{"example.com/one"}, {"example.com/one", "example.com/two"}} {
		r := &renderer{x: x, s: s, list: plugins, texts: names}
		text, ok := r.text(src)
		if !ok {
			return false
		}
		bad := func(f string, a ...any) { c.VP("program", pos, s.Path(), "the program built "+f, a...) }
		f, err := parser.ParseFile(token.NewFileSet(), "main.go", text, 0)
		if err != nil {
			bad("is not Go: %s", err)
			return true
		}
		if f.Name.Name != "main" {
			bad("is not a command but package %s", f.Name.Name)
		}
		count := map[string]int{}
		cmd := ""
		for _, i := range f.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			count[p]++
			switch {
			case p == cmdPkg && i.Name == nil:
				cmd = filepath.Base(p)
			case p == cmdPkg:
				cmd = i.Name.Name
			case i.Name == nil || i.Name.Name != "_":
				bad("imports %s by name and so does not build", p)
			}
		}
		for _, n := range names {
			if count[n] != 1 {
				bad("imports the plugin %s of %d requested %d times", n, len(names), count[n])
			}
		}
		runs := 0
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != "main" || fd.Recv != nil {
				continue
			}
			for _, st := range fd.Body.List {
				if es, ok := st.(*ast.ExprStmt); ok {
					if call, ok := es.X.(*ast.CallExpr); ok && len(call.Args) == 0 && types.ExprString(call.Fun) == cmd+".Main" {
						runs++
					}
				}
			}
		}
		if runs != 1 {
			bad("runs the command %d times", runs)
		}
	}
	return true
}

// joined splits a path joined from a directory and names.
func joined(t *flow.Term) (dir *flow.Term, name string) {
	if strings.HasSuffix(strings.SplitN(flow.CallName(t), "@", 2)[0], "filepath.Join") && len(t.Args) == 1 && t.Args[0].Op == "cat" && len(t.Args[0].Args) == 2 {
		a, b := t.Args[0].Args[0], t.Args[0].Args[1]
		if a.Op == "one" && b.Op == "one" {
			if n, ok := b.Args[0].IsStr(); ok {
				return a.Args[0], n
			}
		}
	}
	if t.Op == "strcat" && len(t.Args) == 2 {
		if n, ok := t.Args[1].IsStr(); ok && strings.HasPrefix(n, "/") {
			return t.Args[0], n[1:]
		}
	}
	return nil, ""
}

// installs checks that a build leaves its result where it is run from.
func (c *C) installs(x *flow.Exec, s *flow.State, pos token.Pos, args, env, src, bin *flow.Term) {
	ps, ok := pieces(x, args)
	if !ok {
		return
	}
	words := []*flow.Term{}
	for _, p := range ps {
		if p.One == nil {
			return
		}
		words = append(words, p.One)
	}
	if len(words) == 0 {
		return
	}
	verb, _ := words[0].IsStr()
	for i, w := range words {
		if o, ok := w.IsStr(); ok && o == "-o" && i+1 < len(words) {
			if words[i+1] != bin {
				c.VP("binary", pos, s.Path(), "the program is built as %s, but %s is run", words[i+1], bin)
			}
			return
		}
	}
	dir, name := joined(bin)
	_, file := joined(src)
	if dir == nil || file == "" {
		c.VP("binary", pos, s.Path(), "the program built from %s is run as %s", src, bin)
		return
	}
	if name != strings.TrimSuffix(file, ".go") {
		c.VP("binary", pos, s.Path(), "the program built from %s is run as %s", file, name)
	}
	if verb != "install" {
		c.VP("binary", pos, s.Path(), "go %s does not leave the program where it is run from", verb)
		return
	}
	es, known := pieces(x, env)
	want := flow.StrCat(flow.StrConst("GOBIN="), dir)
	for _, p := range es {
		if p.One == want {
			return
		}
	}
	for _, set := range s.Items("setenv") {
		if n, ok := set.Terms[0].IsStr(); ok && n == "GOBIN" && set.Terms[1] == dir {
			return
		}
	}
	if known {
		c.VP("binary", pos, s.Path(), "the program is not installed in the directory it is run from: the environment is %s", env)
	}
}
