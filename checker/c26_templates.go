package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C26", Title: "The built-in templates are valid and render all nested content",
		Rule:  "The assets of both engines and of the error pages are decoded from the generated source. Every template is parsed and type-checked against the Go type of the data it is executed with (content types by name, section types, styled content; error types by following the error page functions to their template executions): each field, method, function, argument and nested template must exist and fit, and pointers are only followed under a condition naming them. For every content type all combinations of the template's conditions are enumerated: every nested piece is rendered exactly once in each, in order. Names looked up for built-in styles and content types exist.",
		Trust: []string{"the semantics of text/template as documented"},
		Run:   runC26,
	})
}

// tCheck type-checks one template.
type tCheck struct {
	c     *C
	pkg   string
	name  string
	funcs map[string][]*types.Signature
	names map[string]types.Type // data of the other templates; nil: none
	vars  map[string]types.Type
	dot0  types.Type
	conds []string
	w     *tWalk // for canonical expressions
	quiet bool
}

var anyT = types.Universe.Lookup("any").Type()

func (k *tCheck) bad(n parse.Node, f string, a ...any) types.Type {
	if !k.quiet {
		line := 0
		if n != nil {
			line = k.w.line(n.Position())
		}
		k.c.V("template:"+short(k.pkg)+"/"+k.name+":"+strconv.Itoa(line), token.NoPos, tmplWhere(k.pkg, k.name, line)+": "+f, a...)
	}
	return nil
}

func (k *tCheck) list(l *parse.ListNode, dot types.Type, expr string) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		switch n := n.(type) {
		case *parse.ActionNode:
			k.pipe(n.Pipe, dot, expr)
			k.c.Obl("template actions")
		case *parse.IfNode:
			k.branch(&n.BranchNode, dot, expr, "if")
		case *parse.WithNode:
			k.branch(&n.BranchNode, dot, expr, "with")
		case *parse.RangeNode:
			k.branch(&n.BranchNode, dot, expr, "range")
		case *parse.TemplateNode:
			k.c.Obl("template actions")
			var at types.Type
			if n.Pipe != nil {
				at = k.pipe(n.Pipe, dot, expr)
			}
			want, ok := k.names[n.Name]
			if !ok {
				k.bad(n, "there is no template %q", n.Name)
			} else if want != nil && n.Pipe == nil {
				k.bad(n, "template %q is used without data", n.Name)
			} else if want != nil && at != nil && !fits(at, want) {
				k.bad(n, "template %q is for %s, not %s", n.Name, short(want.String()), short(at.String()))
			}
		}
	}
}

func (k *tCheck) branch(b *parse.BranchNode, dot types.Type, expr, kind string) {
	saved := map[string]types.Type{}
	for n, v := range k.vars {
		saved[n] = v
	}
	ws := map[string]string{}
	for n, v := range k.w.vars {
		ws[n] = v
	}
	conds := k.conds
	t := k.pipe(b.Pipe, dot, expr)
	e := k.w.pipe(b.Pipe, expr)
	switch kind {
	case "if":
		k.conds = append(append([]string{}, conds...), conj(e, true)...)
		k.list(b.List, dot, expr)
	case "with":
		k.conds = append(append([]string{}, conds...), conj(e, true)...)
		k.list(b.List, t, e)
	case "range":
		var kt, et types.Type
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				kt, et = types.Typ[types.Int], u.Elem()
			case *types.Array:
				kt, et = types.Typ[types.Int], u.Elem()
			case *types.Map:
				kt, et = u.Key(), u.Elem()
			case *types.Basic:
				kt, et = t, t
			case *types.Signature, *types.Chan:
			default:
				k.bad(b, "%s cannot be ranged over", short(t.String()))
			}
		}
		el := e + "[]"
		switch len(b.Pipe.Decl) {
		case 1:
			k.vars[b.Pipe.Decl[0].Ident[0]] = et
			k.w.vars[b.Pipe.Decl[0].Ident[0]] = el
		case 2:
			k.vars[b.Pipe.Decl[0].Ident[0]] = kt
			k.vars[b.Pipe.Decl[1].Ident[0]] = et
			k.w.vars[b.Pipe.Decl[0].Ident[0]] = "key(" + e + ")"
			k.w.vars[b.Pipe.Decl[1].Ident[0]] = el
		}
		k.list(b.List, et, el)
	}
	k.vars, k.w.vars = saved, ws
	k.conds = append(append([]string{}, conds...), conj(e, false)...)
	k.list(b.ElseList, dot, expr)
	k.conds = conds
}

func (k *tCheck) pipe(p *parse.PipeNode, dot types.Type, expr string) types.Type {
	if p == nil {
		return nil
	}
	var t types.Type
	e := ""
	for i, cm := range p.Cmds {
		t = k.cmd(cm, dot, expr, t, e, i > 0)
		e = k.w.cmd(cm, expr, e, i > 0)
	}
	for _, d := range p.Decl {
		k.vars[d.Ident[0]] = t
		k.w.vars[d.Ident[0]] = e
	}
	return t
}

func (k *tCheck) cmd(cm *parse.CommandNode, dot types.Type, expr string, piped types.Type, pe string, hasPipe bool) types.Type {
	args := []types.Type{}
	exprs := []string{}
	for _, a := range cm.Args[1:] {
		args = append(args, k.arg(a, dot, expr, nil, nil))
		exprs = append(exprs, k.w.arg(a, expr))
	}
	if hasPipe {
		args = append(args, piped)
		exprs = append(exprs, pe)
	}
	if f, ok := cm.Args[0].(*parse.IdentifierNode); ok {
		return k.call(f, f.Ident, args, exprs)
	}
	return k.arg(cm.Args[0], dot, expr, args, exprs)
}

func (k *tCheck) call(n parse.Node, name string, args []types.Type, exprs []string) types.Type {
	sigs := k.funcs[name]
	if len(sigs) == 0 {
		switch name {
		case "and", "or":
			if len(args) > 0 {
				t := args[0]
				for _, a := range args {
					if t == nil || a == nil || !types.Identical(t, a) {
						return nil
					}
				}
				return t
			}
		case "not", "eq", "ne", "lt", "le", "gt", "ge":
			return types.Typ[types.Bool]
		case "len":
			if len(args) == 1 && args[0] != nil {
				switch u := args[0].Underlying().(type) {
				case *types.Slice, *types.Map, *types.Array:
				case *types.Basic:
					if u.Info()&types.IsString == 0 {
						k.bad(n, "len of %s", short(args[0].String()))
					}
				case *types.Interface:
				default:
					k.bad(n, "len of %s", short(args[0].String()))
				}
			}
			return types.Typ[types.Int]
		case "index":
			if len(args) == 2 && args[0] != nil {
				switch u := args[0].Underlying().(type) {
				case *types.Slice:
					return u.Elem()
				case *types.Map:
					return u.Elem()
				}
			}
			return nil
		case "print", "printf", "println", "html", "js", "urlquery":
			return types.Typ[types.String]
		case "slice":
			if len(args) > 0 {
				return args[0]
			}
		case "call":
			return nil
		}
		switch name {
		case "and", "or", "slice":
			k.bad(n, "%s without arguments", name)
			return nil
		}
		return k.bad(n, "there is no function %q", name)
	}
	why := ""
	for _, s := range sigs {
		if w := k.applies(s, args, exprs); w != "" {
			why = w
			continue
		}
		return s.Results().At(0).Type()
	}
	return k.bad(n, "function %q cannot be called: %s", name, why)
}

func (k *tCheck) applies(s *types.Signature, args []types.Type, exprs []string) string {
	ps := s.Params()
	if len(args) != ps.Len() && !(s.Variadic() && len(args) >= ps.Len()-1) {
		return "wrong number of arguments"
	}
	for i, a := range args {
		var p types.Type
		if s.Variadic() && i >= ps.Len()-1 {
			p = ps.At(ps.Len() - 1).Type().(*types.Slice).Elem()
		} else {
			p = ps.At(i).Type()
		}
		if a == nil {
			continue
		}
		if !fits(a, p) {
			return short(a.String()) + " is not " + short(p.String())
		}
		if pt, ok := a.Underlying().(*types.Pointer); ok && !types.AssignableTo(a, p) && types.AssignableTo(pt.Elem(), p) && !k.under(exprs[i]) {
			return exprs[i] + " may be nil"
		}
	}
	return ""
}

func (k *tCheck) under(e string) bool {
	for _, cd := range k.conds {
		if cd == e {
			return true
		}
	}
	return false
}

// fits follows text/template's conversion of arguments.
func fits(a, p types.Type) bool {
	if types.AssignableTo(a, p) {
		return true
	}
	if types.IsInterface(a) && types.IsInterface(p) {
		return types.Implements(a, p.Underlying().(*types.Interface))
	}
	if pt, ok := a.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), p) {
		return true
	}
	if pp, ok := p.(*types.Pointer); ok && types.AssignableTo(a, pp.Elem()) {
		return true
	}
	if b, ok := a.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return types.ConvertibleTo(a, p)
	}
	return false
}

func (k *tCheck) arg(n parse.Node, dot types.Type, expr string, args []types.Type, exprs []string) types.Type {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return k.chain(n, dot, expr, n.Ident, args, exprs)
	case *parse.VariableNode:
		v := n.Ident[0]
		t := k.vars[v]
		if v == "$" {
			t = k.dot0
		}
		return k.chain(n, t, k.w.vars[v], n.Ident[1:], args, exprs)
	case *parse.ChainNode:
		return k.chain(n, k.arg(n.Node, dot, expr, nil, nil), k.w.arg(n.Node, expr), n.Field, args, exprs)
	case *parse.PipeNode:
		return k.pipe(n, dot, expr)
	case *parse.IdentifierNode:
		return k.call(n, n.Ident, nil, nil)
	case *parse.StringNode:
		return types.Typ[types.String]
	case *parse.BoolNode:
		return types.Typ[types.Bool]
	case *parse.NumberNode:
		if n.IsInt {
			return types.Typ[types.UntypedInt]
		}
		return types.Typ[types.UntypedFloat]
	}
	return nil
}

func (k *tCheck) chain(n parse.Node, t types.Type, expr string, fields []string, args []types.Type, exprs []string) types.Type {
	for i, f := range fields {
		if t == nil {
			return nil
		}
		last := i == len(fields)-1
		if m, ok := t.Underlying().(*types.Map); ok {
			if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				return k.bad(n, "%s is not a field of %s", f, short(t.String()))
			}
			if types.NewMethodSet(t).Lookup(nil, f) == nil {
				t = m.Elem()
				expr += "." + f
				continue
			}
		}
		o, idx, _ := types.LookupFieldOrMethod(t, true, nil, f)
		if o == nil || !o.Exported() {
			return k.bad(n, "%s has no field or method %s", short(t.String()), f)
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			_, isField := o.(*types.Var)
			if isField && expr != "$" && !strings.HasSuffix(expr, "[]") && !k.under(expr) && len(idx) > 0 {
				k.bad(n, "%s may be nil where its %s is used", expr, f)
			}
			_ = pt
		}
		expr += "." + f
		switch o := o.(type) {
		case *types.Var:
			t = o.Type()
			if last && len(args) > 0 {
				return k.bad(n, "field %s is called like a function", f)
			}
		case *types.Func:
			s := o.Type().(*types.Signature)
			var as []types.Type
			var es []string
			if last {
				as, es = args, exprs
			}
			if rp, ok := s.Recv().Type().(*types.Pointer); ok && !types.IsInterface(t) {
				if _, isP := t.Underlying().(*types.Pointer); !isP && !strings.Contains(expr, "[]") {
					// only addressable values have the methods of their pointers
					if types.NewMethodSet(t).Lookup(o.Pkg(), f) == nil && !strings.Contains(strings.TrimPrefix(expr, "$."), ".") {
						return k.bad(n, "%s is a method of %s, not of the value", f, short(rp.String()))
					}
				}
			}
			if why := k.applies(s, as, es); why != "" {
				return k.bad(n, "method %s cannot be called: %s", f, why)
			}
			switch s.Results().Len() {
			case 1:
			case 2:
				if s.Results().At(1).Type().String() != "error" {
					return k.bad(n, "method %s has two results", f)
				}
			default:
				return k.bad(n, "method %s has %d results", f, s.Results().Len())
			}
			t = s.Results().At(0).Type()
		}
	}
	return t
}

func runC26(c *C) {
	secT := types.NewPointer(c.P.named(mod, "Section"))
	styled := types.Type(c.P.named(mod, "Styled"))
	vi := c.P.iface(mod, "Visitor")
	direct := map[string]types.Type{} // template -> content type
	visited := map[string]bool{}
	for i := 0; i < vi.NumMethods(); i++ {
		visited[vi.Method(i).Name()] = true
	}
	for _, t := range c.P.contentTypes() {
		n := typeName(t)
		if n == "Lazy" || n == "Styled" || !visited["Visit"+n] {
			continue
		}
		if n == "TableOfContents" {
			direct["toc.tmpl"] = secT
			continue
		}
		direct[strings.ToLower(n)+".tmpl"] = t
	}
	// engines
	for _, pkg := range []string{renderPkg + "/html", renderPkg + "/text"} {
		ts := c.templates(pkg)
		funcs := c.funcSigs(renderPkg, strings.TrimPrefix(pkg, renderPkg+"/"))
		names := map[string]types.Type{}
		for n := range ts {
			switch {
			case n == "page.tmpl":
				names[n] = secT
			case direct[n] != nil:
				names[n] = direct[n]
			default:
				names[n] = styled
			}
		}
		for _, n := range sortedKeys(ts) {
			c.checkTemplate(pkg, n, ts, funcs, names)
		}
		html := strings.HasSuffix(pkg, "/html")
		for _, n := range sortedKeys(direct) {
			if _, ok := ts[n]; !ok && html {
				c.V("missing:html/"+n, token.NoPos, "no template %s is built in for %s", n, typeName(direct[n]))
			}
		}
		for _, n := range []string{"page.tmpl", "section.tmpl", "sequence.tmpl", "string.tmpl", "paragraph.tmpl", "preformatted.tmpl", "toc.tmpl"} {
			if _, ok := ts[n]; !ok {
				c.V("missing:"+short(pkg)+"/"+n, token.NoPos, "%s has no template %s", short(pkg), n)
			}
		}
		if html {
			for _, st := range c.styles() {
				c.Obl("built-in styles")
				if _, ok := ts[st+".tmpl"]; !ok {
					c.V("missing:html/"+st, token.NoPos, "no template is built in for style %q", st)
				}
			}
		}
		c.coverage(pkg, ts, names)
	}
	for _, pkg := range []string{renderPkg + "/html", renderPkg + "/text", mod + "/errhtml"} {
		c.builtinLoading(pkg)
	}
	c.Need("loaded template sets", 3)
	// error pages
	pkg := mod + "/errhtml"
	ts := c.templates(pkg)
	data := c.errorData(ts)
	names := map[string]types.Type{}
	for n := range ts {
		names[n] = data[n]
		if data[n] == nil && strings.HasSuffix(n, ".tmpl") {
			c.Sample("%s is never executed directly", n)
		}
	}
	for _, n := range sortedKeys(ts) {
		c.checkTemplate(pkg, n, ts, c.funcSigs(mod, ""), names)
	}
	// what the error pages show
	for _, n := range sortedKeys(data) {
		t := data[n]
		text, ok := ts[n]
		st := structOf(t)
		if !ok || st == nil || !types.Implements(t, errI()) {
			continue
		}
		w, err := tmplEvents(n, text)
		if err != nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			c.Obl("details of errors")
			shown := false
			for _, e := range w.events {
				if strings.Contains(e.Expr, "$."+f.Name()) {
					shown = true
				}
			}
			if !shown {
				c.V("shown:"+n+":"+f.Name(), token.NoPos, "%s does not show the %s of a %s", tmplWhere(pkg, n, 1), f.Name(), typeName(t))
			}
		}
	}
	c.Need("template actions", 20)
	c.Need("executed error templates", 2)
	c.Need("renderings", 10)
}

// builtinLoading: every asset is parsed as the template it is named after.
func (c *C) builtinLoading(assets string) {
	user := mod
	if strings.HasPrefix(assets, renderPkg) {
		user = renderPkg
	}
	is := func(ci *flow.CallInfo, names ...string) bool {
		if ci.Callee == nil || ci.Callee.Pkg == nil || ci.Callee.Pkg.Pkg.Path() != assets {
			return false
		}
		for _, n := range names {
			if ci.Callee.Name() == n {
				return true
			}
		}
		return false
	}
	strT := types.Typ[types.String]
	found := false
	for _, fn := range c.P.allFuncs(user) {
		lists := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					lists = lists || g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == assets && g.Name() == "AssetNames"
				}
			}
		}
		if !lists {
			continue
		}
		found = true
		c.Obl("loaded template sets")
		names := flow.Sym("pure", "assetNames", types.NewSlice(strT))
		r := &flow.Rule{Keep: loopSyms}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch {
			case is(ci, "AssetNames"):
				return one(s, names), true
			case is(ci, "MustAsset"):
				return one(s, flow.Sym("pure", "asset", types.NewSlice(types.Typ[types.Byte]), ci.Args...)), true
			case is(ci, "Asset", "AssetInfo", "AssetDir"):
				return forkErr(x, s, ci), true
			case ci.Callee != nil && ci.Callee.Pkg != nil && ci.Callee.Pkg.Pkg.Path() == assets:
				return one(s, x.OpaqueResult(s, ci)), true
			case strings.HasSuffix(ci.Name, "template.Template).New"), strings.HasSuffix(ci.Name, "/template.New"):
				return one(s, flow.Sym("newTemplate", "", ci.Result, ci.Args[len(ci.Args)-1])), true
			case strings.HasSuffix(ci.Name, "template.Template).Parse"):
				outs := forkErr(x, s, ci)
				if len(outs) > 0 && ci.Args[0].Op == "newTemplate" {
					outs[0].St.Add("parsed", ci.Args[0].Args[0], ci.Args[1])
				}
				return outs, true
			case strings.HasSuffix(ci.Name, "template.Must"):
				return one(s, ci.Args[0]), true
			}
			return nil, false
		}
		r.BackEdge = func(x *flow.Exec, s *flow.State, l *flow.Loop) {
			coll, e, _ := loopElem(x, s, l)
			if coll != names {
				return
			}
			ok := false
			for _, i := range s.Items("parsed") {
				ok = ok || c.ofAsset(i.Terms[0], e, false) && c.ofAsset(i.Terms[1], e, true)
			}
			if !ok {
				s.Add("miss:"+l.Key, coll)
				c.VP("load:"+short(assets), fn.Pos(), s.Path(), "a template built into %s is not loaded as what it is", short(assets))
			}
		}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if coll, _, _ := loopElem(x, s, l); exhausted && coll == names {
				s.Add("all", names)
			}
		}
		_, exits := c.run(r, fn, c.params(fn), nil)
		for _, e := range exits {
			if !e.St.Has("all", names) && e.St.Decide(flow.Eq(flow.Len(names), flow.Int(0))) != 1 && !errPath(e.St, e.Res) {
				c.VP("load:"+short(assets), fn.Pos(), e.St.Path(), "not all templates built into %s are loaded", short(assets))
			}
		}
	}
	if !found {
		c.V("load:"+short(assets), token.NoPos, "the templates built into %s are not loaded", short(assets))
	}
}

func (c *C) params(fn *ssa.Function) []*flow.Term {
	out := []*flow.Term{}
	for _, p := range fn.Params {
		out = append(out, flow.Sym("param", p.Name(), p.Type()))
	}
	return out
}

// ofAsset: the value is the name (the last part of it) or the text (but for
// space around it) of the asset.
func (c *C) ofAsset(t, asset *flow.Term, text bool) bool {
	for {
		n := flow.CallName(t)
		switch {
		case t.Op == "conv" || t.Op == "iface":
			t = t.Args[0]
		case text && t.Op == "pure" && t.Str == "asset":
			return t.Args[0] == asset
		case text && t.Op == "result" && t.Str == "0" && strings.HasSuffix(flow.CallName(t.Args[0]), ".Asset"):
			return has(t.Args[0], asset)
		case text && (n == "strings.TrimRight" || n == "strings.TrimSuffix" || n == "strings.Trim" || n == "bytes.TrimRight" || n == "bytes.TrimSuffix"):
			if v, ok := t.Args[1].IsStr(); !ok || strings.TrimSpace(v) != "" {
				return false
			}
			t = t.Args[0]
		case text && (n == "strings.TrimSpace" || n == "bytes.TrimSpace"):
			t = t.Args[0]
		case !text && (n == "path/filepath.Base" || n == "path.Base"):
			t = t.Args[0]
			if t == asset {
				return true
			}
		case !text:
			return (n == "invoke:(os.FileInfo).Name" || strings.HasSuffix(n, "FileInfo).Name")) && has(t, asset)
		default:
			return false
		}
	}
}

func errI() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// funcSigs are the signatures of the functions templates of a kind have, html
// or text; "" for all of them.
func (c *C) funcSigs(pkg, kind string) map[string][]*types.Signature {
	kinds := map[ssa.Value]map[string]bool{}
	bare := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
					return g
				}
			}
			return v
		}
	}
	note := func(v ssa.Value, k string) {
		if kinds[v] == nil {
			kinds[v] = map[string]bool{}
		}
		kinds[v][k] = true
	}
	fs := c.P.allFuncs(pkg)
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && strings.HasSuffix(g.String(), "template.Template).Funcs") {
						k := "text"
						if strings.HasPrefix(g.String(), "(*html/") {
							k = "html"
						}
						note(bare(ci.Common().Args[1]), k)
					}
				}
			}
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						for k := range kinds[g] {
							note(bare(st.Val), k)
						}
					}
				}
			}
		}
	}
	out := map[string][]*types.Signature{}
	for _, fe := range c.templateFuncs(pkg) {
		if ks := kinds[bare(fe.Map)]; kind != "" && len(ks) > 0 && !ks[kind] {
			continue
		}
		g := c.behind(fe.Fn)
		s := g.Signature
		if s.Recv() != nil {
			s = types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
		}
		out[fe.Name] = append(out[fe.Name], s)
	}
	return out
}

func (c *C) checkTemplate(pkg, n string, ts map[string]string, funcs map[string][]*types.Signature, names map[string]types.Type) {
	c.Obl("templates")
	tr := parse.New(n)
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	if _, err := tr.Parse(ts[n], "{{", "}}", set); err != nil {
		c.V("parse:"+short(pkg)+"/"+n, token.NoPos, "built-in template %s/%s does not parse: %s", short(pkg), n, err)
		return
	}
	if t := set[n]; t != nil {
		tr = t
	}
	if tr.Root == nil {
		return
	}
	k := &tCheck{c: c, pkg: pkg, name: n, funcs: funcs, names: names, vars: map[string]types.Type{}, dot0: names[n]}
	k.w = &tWalk{tree: tr, text: ts[n], vars: map[string]string{"$": "$"}}
	k.list(tr.Root, names[n], "$")
}

// styles are the style names the module itself uses.
func (c *C) styles() []string {
	st := c.P.named(mod, "Style")
	out := map[string]bool{}
	for _, p := range []string{mod, mod + "/baselit"} {
		for _, f := range c.P.allFuncs(p) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && types.Identical(k.Type(), st) {
							if s := constant.StringVal(k.Value); s != "" {
								out[s] = true
							}
						}
					}
				}
			}
		}
	}
	ks := sortedKeys(out)
	return ks
}

// errorData finds the templates executed by the root package with their data.
func (c *C) errorData(ts map[string]string) map[string]types.Type {
	out := map[string]types.Type{}
	executes := map[*ssa.Function]bool{}
	for _, f := range c.P.allFuncs(mod) {
		if f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		for g := range c.P.reach(f) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && (strings.HasSuffix(s.String(), "template.Template).Execute") || strings.HasSuffix(s.String(), "template.Template).ExecuteTemplate")) {
							executes[f] = true
						}
					}
				}
			}
		}
	}
	fs := []*ssa.Function{}
	for f := range executes {
		if token.IsExported(f.Name()) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		args := []*flow.Term{}
		for i, p := range f.Params {
			args = append(args, flow.Sym("param", "arg"+itoa(i), p.Type()))
		}
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch {
			case strings.HasSuffix(ci.Name, "template.Template).Lookup"):
				t := ci.Result
				if tt, ok := t.(*types.Tuple); ok {
					t = tt.At(0).Type()
				}
				return one(s, flow.Sym("lookedup", "", t, ci.Args[0], ci.Args[1])), true
			case strings.HasSuffix(ci.Name, "template.Template).Execute"), strings.HasSuffix(ci.Name, "template.Template).ExecuteTemplate"):
				name := (*flow.Term)(nil)
				if strings.HasSuffix(ci.Name, "ExecuteTemplate") {
					name = ci.Args[2]
				} else if ci.Args[0].Op == "lookedup" {
					name = ci.Args[0].Args[1]
				}
				n, ok := "", false
				if name != nil {
					n, ok = name.IsStr()
				}
				if !ok {
					c.VP("name:"+f.Name(), ci.Pos, s.Path(), "the template executed is not known: %s", ci.Args[0])
					return forkErr(x, s, ci), true
				}
				c.Obl("executed error templates")
				d := unwrap(ci.Args[len(ci.Args)-1])
				if _, ok := ts[n]; !ok {
					c.VP("missing:errhtml/"+n, ci.Pos, s.Path(), "there is no template %s for error pages", n)
				} else if old := out[n]; old != nil && d.Typ != nil && !types.Identical(old, d.Typ) {
					c.VP("data:"+n, ci.Pos, s.Path(), "template %s is executed with both %s and %s", n, short(old.String()), short(d.Typ.String()))
				} else if d.Typ != nil {
					out[n] = d.Typ
				}
				return forkErr(x, s, ci), true
			}
			return nil, false
		}
		c.run(r, f, args, nil)
	}
	for n, t := range out {
		if p, ok := t.(*types.Pointer); ok {
			out[n] = p
		}
	}
	return out
}

// coverage checks that templates render every nested piece once.
func (c *C) coverage(pkg string, ts map[string]string, names map[string]types.Type) {
	want := map[string][]string{
		"sequence.tmpl":     {"$.Contents[]|$[]"},
		"paragraph.tmpl":    {"$[]"},
		"preformatted.tmpl": {"$[]"},
		"list.tmpl":         {"$.Items[]"},
		"table.tmpl":        {"$.Rows[][]"},
		"definitions.tmpl":  {"$[].Subject", "$[].Definition"},
		"link.tmpl":         {"$.Content"},
		"section.tmpl":      {"$.Title", "$.Body", "$.Children[]"},
		"page.tmpl":         {"$"},
	}
	for _, n := range sortedKeys(ts) {
		w := c.events(pkg, n, ts)
		exp, ok := want[n]
		if !ok && typeName(names[n]) == "Styled" {
			exp, ok = []string{"$.Content|$"}, true
		}
		if n == "string.tmpl" {
			exp, ok = []string{"$"}, true
		}
		if n == "reference.tmpl" {
			exp, ok = []string{"$.Display|$.Content"}, true
		}
		if !ok {
			continue
		}
		type ev struct {
			what string
			e    tEvent
		}
		evs := []ev{}
		atoms := map[string]bool{}
		for _, e := range w.events {
			inner, isR := "", false
			for x := e.Expr; ; {
				i := strings.IndexByte(x, '(')
				if i < 0 || !strings.HasSuffix(x, ")") {
					inner = x
					break
				}
				fn := x[:i]
				if fn == "render" || fn == "rawHTML" {
					isR = true
				}
				as := splitArgs(x[i+1 : len(x)-1])
				x = as[len(as)-1]
			}
			if n == "string.tmpl" && (inner == "$.String" || inner == "$") {
				isR, inner = true, "$"
			}
			if !isR {
				continue
			}
			if strings.HasPrefix(e.Expr, "stripAux") {
				continue
			}
			c.Obl("renderings")
			evs = append(evs, ev{inner, e})
			for _, cd := range e.Conds {
				atoms[strings.TrimPrefix(cd, "!")] = true
			}
			if strings.Contains(e.Expr, "stripAux") && n != "reference.tmpl" {
				c.V("stripped:"+short(pkg)+"/"+n, token.NoPos, "%s renders %s without its auxiliary content", tmplWhere(pkg, n, e.Line), inner)
			}
		}
		if n == "section.tmpl" {
			atoms["$.SplitSections"] = true
		}
		as := sortedKeys(atoms)
		if len(as) > 8 {
			continue
		}
		for mask := 0; mask < 1<<len(as); mask++ {
			val := map[string]bool{}
			desc := []string{}
			for i, a := range as {
				val[a] = mask>>i&1 == 1
				if val[a] {
					desc = append(desc, a)
				} else {
					desc = append(desc, "not "+a)
				}
			}
			seq := []string{}
			for _, e := range evs {
				on := true
				for _, cd := range e.e.Conds {
					if strings.HasPrefix(cd, "!") {
						on = on && !val[cd[1:]]
					} else {
						on = on && val[cd]
					}
				}
				if on {
					seq = append(seq, e.what)
				}
			}
			exp2 := []string{}
			for _, x := range exp {
				if n == "section.tmpl" && x == "$.Children[]" && val["$.SplitSections"] {
					continue
				}
				none := false // there is nothing to render
				for _, a := range as {
					none = none || !val[a] && (x == a || strings.HasPrefix(x, a+"[]"))
				}
				if none {
					continue
				}
				exp2 = append(exp2, x)
			}
			good := len(seq) == len(exp2)
			for i := 0; good && i < len(seq); i++ {
				alt := false
				for _, a := range strings.Split(exp2[i], "|") {
					alt = alt || a == seq[i]
				}
				good = alt
			}
			if !good {
				under := ""
				if len(desc) > 0 {
					under = " if " + strings.Join(desc, " and ")
				}
				c.V("coverage:"+short(pkg)+"/"+n, token.NoPos, "%s/%s renders [%s]%s, expected each of [%s] once and in order", short(pkg), n, strings.Join(seq, " "), under, strings.Join(exp2, " "))
				break
			}
		}
	}
}
