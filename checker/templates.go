package main

import (
	"bytes"
	"compress/gzip"
	"go/ast"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"
)

// builtinTemplates decodes the templates compiled into a package of assets:
// base name -> text, as the engines load them (trailing newlines removed).
func (p *Prog) builtinTemplates(pkg string) (map[string]string, error) {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil, os.ErrNotExist
	}
	vars := map[string]string{}   // byte slice variables
	data := map[string]string{}   // function -> variable used
	calls := map[string]string{}  // function -> bytes function
	names := map[string]string{}  // function -> asset name
	assets := map[string]string{} // asset key -> function
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Values) != 1 {
						continue
					}
					if ce, ok := vs.Values[0].(*ast.CallExpr); ok && len(ce.Args) == 1 {
						if l, ok := ce.Args[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
							if t, err := strconv.Unquote(l.Value); err == nil {
								vars[vs.Names[0].Name] = t
							}
						}
					}
					if cl, ok := vs.Values[0].(*ast.CompositeLit); ok && vs.Names[0].Name == "_bindata" {
						for _, e := range cl.Elts {
							kv, ok := e.(*ast.KeyValueExpr)
							if !ok {
								continue
							}
							k, ok1 := kv.Key.(*ast.BasicLit)
							v, ok2 := kv.Value.(*ast.Ident)
							if ok1 && ok2 {
								key, _ := strconv.Unquote(k.Value)
								assets[key] = v.Name
							}
						}
					}
				}
			case *ast.FuncDecl:
				if d.Body == nil || d.Recv != nil {
					continue
				}
				ast.Inspect(d.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.CallExpr:
						if id, ok := n.Fun.(*ast.Ident); ok {
							if id.Name == "bindataRead" && len(n.Args) > 0 {
								if v, ok := n.Args[0].(*ast.Ident); ok {
									data[d.Name.Name] = v.Name
								}
							} else if len(n.Args) == 0 {
								calls[d.Name.Name] = id.Name
							}
						}
					case *ast.KeyValueExpr:
						if k, ok := n.Key.(*ast.Ident); ok && k.Name == "name" {
							if l, ok := n.Value.(*ast.BasicLit); ok {
								names[d.Name.Name], _ = strconv.Unquote(l.Value)
							}
						}
					}
					return true
				})
			}
		}
	}
	out := map[string]string{}
	if len(assets) == 0 {
		// not compiled in by go-bindata: the files themselves
		for _, g := range pk.GoFiles {
			fs, _ := filepath.Glob(filepath.Join(filepath.Dir(g), "*.tmpl"))
			for _, f := range fs {
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				out[filepath.Base(f)] = strings.TrimRight(string(b), "\n")
			}
		}
		return out, nil
	}
	for key, fn := range assets {
		v := data[fn]
		if v == "" {
			v = data[calls[fn]]
		}
		gz, err := gzip.NewReader(bytes.NewReader([]byte(vars[v])))
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(gz)
		if err != nil {
			return nil, err
		}
		name := names[fn]
		if name == "" {
			name = key
		}
		out[filepath.Base(name)] = strings.TrimRight(string(b), "\n")
	}
	return out, nil
}

// tEvent is one piece of output of a template.
type tEvent struct {
	Expr   string   // canonical expression, "template:name(arg)" or "text"
	Before string   // literal text directly before
	After  string   // literal text directly after
	Conds  []string // conditions, "!" for negated
	Node   parse.Node
	Line   int
	Args   []string
}

type tWalk struct {
	tree   *parse.Tree
	text   string
	events []tEvent
	vars   map[string]string
	last   string
	err    string
}

// tmplEvents interprets a template abstractly: what it outputs under which
// conditions, with expressions relative to its data ($).
func tmplEvents(name, text string) (*tWalk, error) {
	tr := parse.New(name)
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	if _, err := tr.Parse(text, "{{", "}}", set); err != nil {
		return nil, err
	}
	w := &tWalk{tree: tr, text: text, vars: map[string]string{"$": "$"}}
	if t := set[name]; t != nil {
		tr = t
	}
	if tr.Root != nil {
		w.list(tr.Root, "$", nil)
	}
	return w, nil
}

func (w *tWalk) line(p parse.Pos) int {
	return 1 + strings.Count(w.text[:min(int(p), len(w.text))], "\n")
}

func (w *tWalk) add(e tEvent) { w.events = append(w.events, e); w.last = "" }

func (w *tWalk) list(l *parse.ListNode, dot string, conds []string) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		switch n := n.(type) {
		case *parse.TextNode:
			if len(w.events) > 0 && w.last == "" && w.events[len(w.events)-1].After == "" {
				w.events[len(w.events)-1].After = string(n.Text)
			}
			w.last = string(n.Text)
		case *parse.ActionNode:
			e := w.pipe(n.Pipe, dot)
			if len(n.Pipe.Decl) == 0 {
				w.add(tEvent{Expr: e, Before: w.last, Conds: append([]string{}, conds...), Node: n, Line: w.line(n.Pos)})
			}
		case *parse.IfNode:
			w.branch(n.BranchNode, dot, conds, "if")
		case *parse.WithNode:
			w.branch(n.BranchNode, dot, conds, "with")
		case *parse.RangeNode:
			w.branch(n.BranchNode, dot, conds, "range")
		case *parse.TemplateNode:
			a := ""
			if n.Pipe != nil {
				a = w.pipe(n.Pipe, dot)
			}
			w.add(tEvent{Expr: "template:" + n.Name + "(" + a + ")", Before: w.last, Conds: append([]string{}, conds...), Node: n, Line: w.line(n.Pos)})
		}
	}
}

func (w *tWalk) branch(b parse.BranchNode, dot string, conds []string, kind string) {
	saved := map[string]string{}
	for k, v := range w.vars {
		saved[k] = v
	}
	e := w.pipe(b.Pipe, dot)
	last := w.last
	switch kind {
	case "if":
		w.list(b.List, dot, append(append([]string{}, conds...), conj(e, true)...))
	case "with":
		w.list(b.List, e, append(append([]string{}, conds...), conj(e, true)...))
	case "range":
		el := e + "[]"
		switch len(b.Pipe.Decl) {
		case 1:
			w.vars[b.Pipe.Decl[0].Ident[0]] = el
		case 2:
			w.vars[b.Pipe.Decl[0].Ident[0]] = "key(" + e + ")"
			w.vars[b.Pipe.Decl[1].Ident[0]] = el
		}
		w.list(b.List, el, append([]string{}, conds...))
	}
	w.vars = saved
	end := w.last
	w.last = last
	w.list(b.ElseList, dot, append(append([]string{}, conds...), conj(e, false)...))
	if end != last {
		w.last = end
	}
}

// conj splits a condition into its necessary parts.
func conj(e string, pos bool) []string {
	if strings.HasPrefix(e, "not(") && strings.HasSuffix(e, ")") {
		return conj(e[4:len(e)-1], !pos)
	}
	if pos && strings.HasPrefix(e, "and(") {
		out := []string{}
		for _, a := range splitArgs(e[4 : len(e)-1]) {
			out = append(out, conj(a, true)...)
		}
		return out
	}
	if !pos && strings.HasPrefix(e, "or(") {
		out := []string{}
		for _, a := range splitArgs(e[3 : len(e)-1]) {
			out = append(out, conj(a, false)...)
		}
		return out
	}
	if pos {
		return []string{e}
	}
	return []string{"!" + e}
}

func splitArgs(s string) []string {
	out, depth, start := []string{}, 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

func (w *tWalk) pipe(p *parse.PipeNode, dot string) string {
	if p == nil {
		return ""
	}
	v := ""
	for i, c := range p.Cmds {
		v = w.cmd(c, dot, v, i > 0)
	}
	for _, d := range p.Decl {
		w.vars[d.Ident[0]] = v
	}
	return v
}

func (w *tWalk) cmd(c *parse.CommandNode, dot, piped string, hasPipe bool) string {
	args := []string{}
	for _, a := range c.Args[1:] {
		args = append(args, w.arg(a, dot))
	}
	if hasPipe {
		args = append(args, piped)
	}
	switch f := c.Args[0].(type) {
	case *parse.IdentifierNode:
		return f.Ident + "(" + strings.Join(args, ",") + ")"
	default:
		v := w.arg(c.Args[0], dot)
		if len(args) > 0 {
			return v + "(" + strings.Join(args, ",") + ")"
		}
		return v
	}
}

func (w *tWalk) arg(n parse.Node, dot string) string {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return dot + "." + strings.Join(n.Ident, ".")
	case *parse.VariableNode:
		v, ok := w.vars[n.Ident[0]]
		if !ok {
			v = "?" + n.Ident[0]
		}
		if len(n.Ident) > 1 {
			v += "." + strings.Join(n.Ident[1:], ".")
		}
		return v
	case *parse.ChainNode:
		return w.arg(n.Node, dot) + "." + strings.Join(n.Field, ".")
	case *parse.PipeNode:
		return w.pipe(n, dot)
	case *parse.IdentifierNode:
		return n.Ident + "()"
	case *parse.StringNode:
		return n.Quoted
	case *parse.NilNode:
		return "nil"
	}
	return n.String()
}

// templates decodes a package's templates or reports why it cannot.
func (c *C) templates(pkg string) map[string]string {
	t, err := c.P.builtinTemplates(pkg)
	if err != nil {
		c.V("templates:"+short(pkg), token.NoPos, "the built-in templates of %s cannot be decoded: %s", short(pkg), err)
		panic(abort{})
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// events interprets one built-in template.
func (c *C) events(pkg, name string, ts map[string]string) *tWalk {
	text, ok := ts[name]
	if !ok {
		c.V("template:"+name, token.NoPos, "%s has no built-in template %s", short(pkg), name)
		return &tWalk{}
	}
	w, err := tmplEvents(name, text)
	if err != nil {
		c.V("template:"+name, token.NoPos, "built-in template %s/%s does not parse: %s", short(pkg), name, err)
		return &tWalk{}
	}
	return w
}

// tmplWhere describes a place in a template for messages.
func tmplWhere(pkg, name string, line int) string {
	return short(pkg) + "/" + name + ":" + strconv.Itoa(line)
}
