package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C18", Title: "Document text never becomes markup by accident",
		Rule:  "Every conversion to one of html/template's safe types in the module is found. The functions containing them are followed symbolically; what is converted must on every path be constant, explicitly escaped, or the content of a buffer which only html/template executions and other checked page functions have written to - except in the template functions for raw HTML and URLs. The same is required of everything written to HTTP responses, to the HTML engine's pages and to error pages. Built-in templates use the raw facilities only in the raw template, and content given a raw style by the module derives from the highlighter's escaped output, not from text.",
		Trust: []string{"html/template escapes by context", "the highlighter's HTML formatter escapes the code it formats"},
		Run:   runC18,
	})
}

func safeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

type markup struct {
	c      *C
	raw    map[*ssa.Function]bool // template functions for raw HTML and URLs
	root   *ssa.Function
	out    map[*flow.Term]bool // where pages are written to
	judged map[ssa.Instruction]bool
	pages  map[*ssa.Function]bool // functions writing a page to their writer
}

// safe decides whether text is safe to be in a page as it is.
func (m *markup) safe(s *flow.State, t *flow.Term) bool {
	t = unwrap(t)
	if t.Op == "const" {
		return true
	}
	if t.Typ != nil && safeType(t.Typ) && t.Op != "conv" {
		return true // converted before: judged there
	}
	switch t.Op {
	case "zero":
		return true
	case "conv":
		return len(t.Args) == 1 && m.safe(s, t.Args[0])
	case "strcat", "cat", "one":
		for _, a := range t.Args {
			if !m.safe(s, a) {
				return false
			}
		}
		return true
	case "written":
		return !s.Has("dirty", t.Args[0])
	}
	n := flow.CallName(t)
	if n == "" && t.Op == "pure" {
		n = t.Str
	}
	switch {
	case strings.HasSuffix(n, "template.HTMLEscapeString"), strings.HasSuffix(n, "template.HTMLEscaper"), n == "html.EscapeString", strings.HasSuffix(n, "template.URLQueryEscaper"), n == "net/url.QueryEscape", n == "net/url.PathEscape", n == "strconv.Itoa":
		return true
	case strings.HasPrefix(n, "strings.Trim"), n == "strings.ToLower", n == "strings.Repeat":
		return len(t.Args) > 0 && m.safe(s, t.Args[0])
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			return true
		}
	}
	return false
}

// writer is the buffer or page an argument stands for, nil if it is neither.
func (m *markup) writer(t *flow.Term) *flow.Term {
	t = unwrap(t)
	if m.out[t] {
		return t
	}
	if t.Op == "alloc" && t.Typ != nil {
		switch t.Typ.String() {
		case "bytes.Buffer", "strings.Builder":
			return t
		}
	}
	return nil
}

func (m *markup) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	n := ci.Name
	switch n {
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return one(s, flow.Sym("written", "", types.Typ[types.String], unwrap(ci.Args[0]))), true
	}
	var w *flow.Term
	at := -1
	for i, a := range ci.Args {
		if v := m.writer(a); v != nil {
			if w == nil || m.out[v] {
				w, at = v, i
			}
		}
	}
	if w == nil {
		return nil, false
	}
	ok, known := m.write(s, ci, w, at)
	if !known {
		return nil, false
	}
	m.c.Obl("writes to pages")
	if !ok {
		if m.out[w] {
			m.c.VP("write:"+shortFn(m.root), ci.Pos, s.Path(), "%s writes to an HTML page what is not known to be escaped", n)
		} else {
			s.AddSticky("dirty", w)
		}
	}
	return nil, false
}

// write decides whether a call only writes safe text to a writer; known is
// false if it does not write, or is followed.
func (m *markup) write(s *flow.State, ci *flow.CallInfo, w *flow.Term, at int) (ok, known bool) {
	n := ci.Name
	rest := func(from int) bool {
		for _, a := range ci.Args[from:] {
			for _, e := range m.spread(s, a) {
				if !m.safe(s, e) {
					return false
				}
			}
		}
		return true
	}
	switch {
	case strings.HasSuffix(n, "template.Template).Execute"), strings.HasSuffix(n, "template.Template).ExecuteTemplate"):
		return strings.HasPrefix(n, "(*html/template."), true
	case strings.HasSuffix(n, "template.HTMLEscape"):
		return true, true
	case strings.HasSuffix(n, ").PrettyHTML"), strings.HasSuffix(n, ").AnnotatedHTML"):
		return true, true // analysed on their own
	case strings.HasSuffix(n, ").RenderSection"):
		return true, true
	case n == "fmt.Fprintf", n == "fmt.Fprint", n == "fmt.Fprintln", n == "io.WriteString":
		return rest(1), true
	case strings.HasSuffix(n, ").WriteString"), strings.HasSuffix(n, ").Write"):
		return rest(1), true
	case strings.HasSuffix(n, ").WriteByte"), strings.HasSuffix(n, ").WriteRune"):
		return true, true
	case n == "io.Copy" || strings.HasSuffix(n, ").WriteTo") || strings.HasSuffix(n, ").ReadFrom"):
		// from a buffer
		for i, a := range ci.Args {
			if i == at {
				continue
			}
			if b := m.writer(a); b != nil {
				return !s.Has("dirty", b), true
			}
			// a reader over safe text
			return m.safeReader(s, a), true
		}
		return false, true
	case strings.HasSuffix(n, "html.Formatter).Format") || strings.HasPrefix(n, "invoke:(github.com/alecthomas/chroma.Formatter)"):
		return true, true
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."):
		return true, false
	case n == "net/http.Error", n == "net/http.NotFound", n == "net/http.Redirect", n == "net/http.ServeFile", n == "net/http.ServeContent":
		return true, false
	case strings.HasSuffix(n, ").ServeHTTP"), strings.HasSuffix(n, ").Header"), strings.HasSuffix(n, ").WriteHeader"), strings.HasSuffix(n, ").Flush"):
		return true, false
	}
	if ci.Callee != nil && inMod(ci.Callee) && len(ci.Callee.Blocks) > 0 {
		return true, false // followed
	}
	return false, true
}

func (m *markup) safeReader(s *flow.State, t *flow.Term) bool {
	t = unwrap(t)
	n := flow.CallName(t)
	if n == "strings.NewReader" || n == "bytes.NewReader" || n == "bytes.NewBufferString" || n == "bytes.NewBuffer" {
		return m.safe(s, t.Args[0])
	}
	return false
}

// spread lists the elements of variadic arguments.
func (m *markup) spread(s *flow.State, t *flow.Term) []*flow.Term {
	if t.Typ != nil {
		if sl, ok := t.Typ.Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
			if t.Op == "cat" {
				out := []*flow.Term{}
				for _, a := range t.Args {
					if a.Op == "one" {
						a = a.Args[0]
					}
					out = append(out, a)
				}
				return out
			}
			if t.Op == "one" {
				return []*flow.Term{t.Args[0]}
			}
			if t.IsNil() || t.Op == "zero" {
				return nil
			}
		}
	}
	return []*flow.Term{t}
}

func (m *markup) rule() *flow.Rule {
	r := &flow.Rule{Call: m.call}
	r.Instr = func(x *flow.Exec, s *flow.State, i ssa.Instruction) {
		var from ssa.Value
		var to types.Type
		switch i := i.(type) {
		case *ssa.ChangeType:
			from, to = i.X, i.Type()
		case *ssa.Convert:
			from, to = i.X, i.Type()
		default:
			return
		}
		if !safeType(to) || safeType(from.Type()) {
			return
		}
		m.judged[i] = true
		m.c.Obl("conversions to safe types")
		for f := i.Parent(); f != nil; f = f.Parent() {
			if m.raw[f] {
				return
			}
		}
		if m.raw[m.root] {
			return
		}
		if t := x.Val(s, from); !m.safe(s, t) {
			m.c.VP("convert:"+shortFn(i.Parent()), i.Pos(), s.Path(), "%s is marked as %s without having been escaped", t, typeName(to))
		}
	}
	return r
}

func (m *markup) analyse(f *ssa.Function, outs ...int) {
	m.root = f
	m.out = map[*flow.Term]bool{}
	args := []*flow.Term{}
	for i, p := range f.Params {
		t := flow.Sym("param", "arg"+itoa(i), p.Type())
		args = append(args, t)
		for _, o := range outs {
			if o == i {
				m.out[t] = true
			}
		}
	}
	m.c.run(m.rule(), f, args, nil)
}

func runC18(c *C) {
	m := &markup{c: c, raw: map[*ssa.Function]bool{}, judged: map[ssa.Instruction]bool{}}
	pkgs := []string{}
	for _, pk := range c.P.scope() {
		pkgs = append(pkgs, pk.PkgPath)
	}
	sort.Strings(pkgs)
	entries := map[*ssa.Function]bool{}
	for _, p := range pkgs {
		for _, fe := range c.templateFuncs(p) {
			g := c.behind(fe.Fn)
			entries[g] = true
			if strings.HasPrefix(fe.Name, "raw") {
				m.raw[g] = true
			}
		}
	}
	type conv struct {
		i ssa.Instruction
		f *ssa.Function
	}
	convs := []conv{}
	roots := []*ssa.Function{}
	outsOf := map[*ssa.Function][]int{}
	for _, p := range pkgs {
		for _, f := range c.P.allFuncs(p) {
			if len(f.Blocks) == 0 || strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, ".peg.go") {
				continue
			}
			root := entries[f]
			for i, q := range f.Params {
				switch {
				case q.Type().String() == "net/http.ResponseWriter":
					outsOf[f] = append(outsOf[f], i)
					root = root || token.IsExported(f.Name()) || f.Parent() != nil
				case q.Type().String() == "io.Writer" && (f.Name() == "PrettyHTML" || f.Name() == "AnnotatedHTML" || f.Name() == "RenderSection" && c.htmlEngine(f)):
					outsOf[f] = append(outsOf[f], i)
					root = true
				}
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var from types.Type
					switch x := i.(type) {
					case *ssa.ChangeType:
						from = x.X.Type()
					case *ssa.Convert:
						from = x.X.Type()
					default:
						continue
					}
					if safeType(i.(ssa.Value).Type()) && !safeType(from) {
						convs = append(convs, conv{i, f})
						if token.IsExported(f.Name()) {
							root = true
						}
					}
				}
			}
			if root {
				roots = append(roots, f)
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range roots {
		if !done[f] {
			done[f] = true
			m.analyse(f, outsOf[f]...)
		}
	}
	// conversions in functions only used elsewhere: from their callers
	for again := true; again; {
		again = false
		for _, cv := range convs {
			if m.judged[cv.i] || done[cv.f] {
				continue
			}
			for _, p := range pkgs {
				for _, g := range c.P.allFuncs(p) {
					if !done[g] && g != cv.f && len(g.Blocks) > 0 && c.P.reach(g)[cv.f] && token.IsExported(g.Name()) {
						done[g] = true
						m.analyse(g, outsOf[g]...)
						again = true
					}
				}
			}
		}
	}
	for _, cv := range convs {
		if !m.judged[cv.i] && !done[cv.f] {
			done[cv.f] = true
			m.analyse(cv.f, outsOf[cv.f]...)
		}
	}
	m.templates()
	for _, p := range pkgs {
		m.rawStyles(p)
	}
	c.Need("conversions to safe types", 2)
	c.Need("writes to pages", 5)
}

func (c *C) htmlEngine(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return false
	}
	n := c.methodOf(rv.Type(), "RenderSection")
	if n == nil {
		return false
	}
	return strings.HasPrefix(typeName(rv.Type()), "HTML")
}

// rawStyle are the built-in templates using raw facilities.
func (m *markup) templates() {
	c := m.c
	for _, pkg := range []string{renderPkg + "/html", mod + "/errhtml"} {
		ts := c.templates(pkg)
		for _, n := range sortedKeys(ts) {
			for _, e := range c.events(pkg, n, ts).events {
				c.Obl("template outputs")
				for _, f := range []string{"rawHTML(", "rawURL("} {
					if strings.Contains(e.Expr, f) && n != "raw-html.tmpl" {
						c.V("raw:"+short(pkg)+"/"+n, token.NoPos, "%s puts %s into the page unescaped", tmplWhere(pkg, n, e.Line), e.Expr)
					}
				}
			}
		}
	}
}

// rawStyles checks the content the module itself gives a raw style.
func (m *markup) rawStyles(pkg string) {
	c := m.c
	styleT := c.P.named(mod, "Style")
	conT := c.P.named(mod, "Content")
	for _, f := range c.P.allFuncs(pkg) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				k, ok := st.Val.(*ssa.Const)
				if !ok || !types.Identical(k.Type(), styleT) || k.Value == nil || k.Value.Kind() != constant.String || !strings.HasPrefix(constant.StringVal(k.Value), "raw-") {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				c.Obl("raw content")
				for _, ref := range *fa.X.Referrers() {
					fb, ok := ref.(*ssa.FieldAddr)
					if !ok || !types.Identical(fb.Type().Underlying().(*types.Pointer).Elem(), conT) {
						continue
					}
					for _, r2 := range *fb.Referrers() {
						if s2, ok := r2.(*ssa.Store); ok && s2.Addr == fb {
							if src := m.source(s2.Val, map[ssa.Value]bool{}); src != nil {
								c.V("rawcontent:"+shortFn(f), s2.Pos(), "%s is given a raw style although it derives from %s (%s), which is not escaped", "the content", src.Name(), short(src.Type().String()))
							}
						}
					}
				}
			}
		}
	}
}

// source finds unescaped text a value derives from.
func (m *markup) source(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	text := func(t types.Type) bool {
		if t.String() == mod+".Content" || t.String() == "error" {
			return true
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return nil
	case *ssa.Parameter:
		if !text(v.Type()) {
			return nil
		}
		g := v.Parent()
		if g.Parent() != nil || token.IsExported(g.Name()) || !m.c.onlyCalled(g) {
			return v
		}
		// what its callers hand over
		for i, q := range g.Params {
			if q != v {
				continue
			}
			for _, call := range m.c.callsOf(g) {
				if x := m.source(call.Common().Args[i], seen); x != nil {
					return x
				}
			}
		}
		return nil
	case *ssa.FreeVar:
		if text(v.Type()) {
			return v
		}
		return nil
	case *ssa.Alloc:
		return m.stored(v, seen)
	case *ssa.Call:
		cc := v.Common()
		if s := cc.StaticCallee(); s != nil {
			n := flow.FuncName(s)
			switch {
			case strings.HasSuffix(n, "template.HTMLEscapeString"), n == "html.EscapeString":
				return nil
			case n == "(*bytes.Buffer).String" || n == "(*strings.Builder).String":
				return m.written(cc.Args[0], seen)
			}
			if inMod(s) && len(s.Blocks) > 0 && !token.IsExported(s.Name()) && s.Parent() == nil && m.c.onlyCalled(s) {
				// what it makes of it
				for _, b := range s.Blocks {
					ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					for _, res := range ret.Results {
						if res.Type().String() == "error" {
							continue
						}
						if x := m.source(res, seen); x != nil {
							return x
						}
					}
				}
				return nil
			}
		}
		if cc.IsInvoke() {
			if x := m.source(cc.Value, seen); x != nil {
				return x
			}
		}
		for _, a := range cc.Args {
			if x := m.source(a, seen); x != nil {
				return x
			}
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if x := m.source(*op, seen); x != nil {
				return x
			}
		}
	}
	return nil
}

func (m *markup) stored(a ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if a.Referrers() == nil {
		return nil
	}
	for _, ref := range *a.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr == a {
				if x := m.source(r.Val, seen); x != nil {
					return x
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if x := m.stored(r.(ssa.Value), seen); x != nil {
				return x
			}
		}
	}
	return nil
}

// written finds unescaped text written to a buffer.
func (m *markup) written(buf ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	var refs func(v ssa.Value) ssa.Value
	done := map[ssa.Value]bool{}
	refs = func(v ssa.Value) ssa.Value {
		if done[v] || v.Referrers() == nil {
			return nil
		}
		done[v] = true
		for _, ref := range *v.Referrers() {
			switch r := ref.(type) {
			case *ssa.MakeInterface:
				if x := refs(r); x != nil {
					return x
				}
			case ssa.CallInstruction:
				cc := r.Common()
				n := calleeName(r)
				switch {
				case strings.HasSuffix(n, "html.Formatter).Format"), strings.HasSuffix(n, ").String"), strings.HasSuffix(n, ").Len"), strings.HasSuffix(n, ").Bytes"), strings.HasSuffix(n, "html/template.Template).Execute"), strings.HasSuffix(n, "template.HTMLEscape"), strings.HasPrefix(n, "invoke:(github.com/alecthomas/chroma.Formatter)"):
				default:
					if cc.IsInvoke() && cc.Method.Name() == "Format" {
						continue
					}
					if s := cc.StaticCallee(); s != nil && inMod(s) && len(s.Blocks) > 0 && !token.IsExported(s.Name()) && s.Parent() == nil && m.c.onlyCalled(s) {
						for i, a := range cc.Args {
							if a == v {
								if x := refs(s.Params[i]); x != nil {
									return x
								}
							}
						}
						continue
					}
					for _, a := range cc.Args {
						if a != v {
							if x := m.source(a, seen); x != nil {
								return x
							}
						}
					}
				}
			}
		}
		return nil
	}
	return refs(buf)
}
