package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C27", Title: "Every content type is rendered with its own template and data by both engines",
		Rule:  "For each engine and each content type (found through the type system) the engine's \"render\" template function is followed symbolically with a value of that type through the type's Visit and the engine's visit method up to the execution of a template: on every successful path exactly one template is executed, it is the one found under the name belonging to the type (or its style) among the templates of the enclosing engine, its data is the value itself (the section for a table of contents), and the result is exactly what was written. Lazy content and auxiliary content pass what they hold on. RenderSection is followed in the same way: the style's page template only if there is one, otherwise the plain one.",
		Trust: []string{"template.Lookup finds a template by its name or returns nil"},
		Run:   runC27,
	})
}

// concreteMethod is the method or closure behind a function value.
func (c *C) behind(f *ssa.Function) *ssa.Function {
	if strings.HasSuffix(f.Name(), "$bound") || strings.HasSuffix(f.Name(), "$thunk") {
		if o, ok := f.Object().(*types.Func); ok {
			if g := c.P.SSA.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

// renderFunc is the function an engine gives its templates as "render".
func (c *C) renderFunc(e types.Type) *ssa.Function {
	for _, fe := range c.templateFuncs(renderPkg) {
		if fe.Name != "render" {
			continue
		}
		g := c.behind(fe.Fn)
		if rv := g.Signature.Recv(); rv != nil && types.Identical(rv.Type(), e) {
			return g
		}
		for _, fv := range g.FreeVars {
			if types.Identical(fv.Type(), e) || types.Identical(fv.Type(), types.NewPointer(e)) {
				return g
			}
		}
	}
	return nil
}

type renderModel struct {
	c      *C
	name   string
	engine *flow.Term
	out    *flow.Term
	val    *flow.Term
	typ    types.Type

	delegated bool
}

func isTemplate(t types.Type) bool {
	return strings.HasSuffix(t.String(), "template.Template")
}

func (m *renderModel) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	n := ci.Name
	if ci.Callee != nil && ci.Callee.Name() == "Visit" && len(ci.Args) == 2 && m.val != nil && unwrap(ci.Args[0]) == m.val {
		s.AddSticky("visitor", unwrap(ci.Args[1]))
	}
	switch {
	case strings.HasSuffix(n, "template.Template).Lookup"):
		m.c.Obl("template lookups")
		nilS, okS := s.Clone(), s
		t := flow.Sym("lookedup", "", ci.Result, ci.Args[0], ci.Args[1])
		if tt, ok := ci.Result.(*types.Tuple); ok {
			t = flow.Sym("lookedup", "", tt.At(0).Type(), ci.Args[0], ci.Args[1])
		}
		nilS.AddSticky("missing", ci.Args[1])
		outs := []flow.Outcome{{St: nilS, Res: flow.Nil()}}
		if a := consistent(okS, flow.Not(flow.Eq(t, flow.Nil()))); a != nil {
			a.AddSticky("found", ci.Args[1])
			outs = append(outs, flow.Outcome{St: a, Res: t})
		}
		return outs, true
	case strings.HasSuffix(n, "template.Template).Execute"), strings.HasSuffix(n, "template.Template).ExecuteTemplate"):
		tmpl, w, data := ci.Args[0], unwrap(ci.Args[1]), ci.Args[len(ci.Args)-1]
		set, name := tmpl, (*flow.Term)(nil)
		if strings.HasSuffix(n, ".ExecuteTemplate") {
			name = ci.Args[2]
		} else if tmpl.Op == "lookedup" {
			set, name = tmpl.Args[0], tmpl.Args[1]
		}
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			k := o.St.Count("executed")
			o.St.AddSticky("executed", orNil(set), orNil(name), w, data, flow.Int(int64(k)))
		}
		return outs, true
	case n == "(*bytes.Buffer).String" || n == "(*strings.Builder).String" || n == "(*bytes.Buffer).Bytes":
		return one(s, flow.Sym("written", "", types.Typ[types.String], unwrap(ci.Args[0]))), true
	case n == "invoke:("+mod+".Content).Visit":
		// what the content holds decides
		c, got := m.c, unwrap(ci.Args[0])
		name := typeName(m.typ)
		c.Obl("contents passing on what they hold")
		m.delegated = true
		ok := false
		lazy := false
		for _, f := range s.Items("forced") {
			lazy = true
			ok = ok || unwrap(f.Terms[0]) == got
		}
		if !lazy && m.val != nil {
			ok = got == flow.Field(m.val, "Content", c.P.named(mod, "Content")) && structOf(m.typ) != nil && !c.methodNamed("Visit"+name)
		}
		if !ok {
			c.VP("delegate:"+m.name, ci.Pos, s.Path(), "%s is rendered instead of the %s", got, name)
		}
		same := false
		for _, v := range s.Items("visitor") {
			same = same || v.Terms[0] == unwrap(ci.Args[1])
		}
		if !same {
			c.VP("visitor:"+m.name, ci.Pos, s.Path(), "what %s holds is rendered with another engine, %s", name, ci.Args[1])
		}
		return flow.Stop, true
	case strings.HasSuffix(n, ".Lazy).Force"):
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			o.St.AddSticky("forced", flow.Sym("result", "0", m.c.P.named(mod, "Content"), o.Res))
		}
		return outs, true
	}
	if m.out != nil {
		// something written through a buffer
		hasOut, buf := false, (*flow.Term)(nil)
		for _, a := range ci.Args {
			if unwrap(a) == m.out {
				hasOut = true
			} else if a.Has(func(t *flow.Term) bool { return t.Op == "alloc" || t.Op == "written" }) {
				buf = a
			}
		}
		if hasOut && buf != nil {
			s.AddSticky("copied", buf)
		}
	}
	return nil, false
}

func orNil(t *flow.Term) *flow.Term {
	if t == nil {
		return flow.Nil()
	}
	return t
}

func runC27(c *C) {
	con := c.P.named(mod, "Content")
	strT := types.Typ[types.String]
	special := map[string]string{"TableOfContents": "toc"}
	for _, e := range c.engines() {
		en := typeName(e)
		fn := c.renderFunc(e)
		if fn == nil {
			c.V("anchor:render:"+en, token.NoPos, "the templates of %s have no function to render content", en)
			continue
		}
		for _, t := range c.P.contentTypes() {
			name := typeName(t)
			key := en + ":" + name
			val := flow.Sym("param", "content", t)
			m := &renderModel{c: c, name: key, val: val, typ: t}
			r := &flow.Rule{Call: m.call, Unroll: 6, Inline: nil}
			args := []*flow.Term{}
			for _, p := range fn.Params {
				switch {
				case types.Identical(p.Type(), con):
					args = append(args, flow.Iface(t, val))
				case fn.Signature.Recv() != nil && p == fn.Params[0]:
					m.engine = flow.Sym("param", "engine", p.Type())
					args = append(args, m.engine)
				default:
					args = append(args, flow.Sym("param", p.Name(), p.Type()))
				}
			}
			// free variables of a closure are left to the engine
			ofEngine := func(t *flow.Term) bool {
				return t.Has(func(u *flow.Term) bool {
					return m.engine != nil && u == m.engine || m.engine == nil && u.Op == "freevar"
				}) && !t.Has(func(u *flow.Term) bool { return strings.HasSuffix(flow.CallName(u), "Clone") })
			}
			_, exits := c.run(r, fn, args, nil)
			done := 0
			for _, ex := range exits {
				if errPath(ex.St, ex.Res) {
					continue
				}
				c.Obl("successful renderings")
				s := ex.St
				xs := s.Items("executed")
				if len(xs) != 1 {
					c.VP("count:"+key, ex.Pos, s.Path(), "rendering %s with %s executes %d templates", name, en, len(xs))
					continue
				}
				it := xs[0].Terms
				set, tn, w, data := it[0], it[1], it[2], it[3]
				if !ofEngine(set) {
					c.VP("set:"+key, ex.Pos, s.Path(), "%s renders nested %s with the templates of %s instead of its own", en, name, set)
					continue
				}
				// the name
				base := special[name]
				if base == "" {
					base = strings.ToLower(name)
				}
				ok, want := false, "'"+base+".tmpl'"
				plain := flow.StrConst(base + ".tmpl")
				switch name {
				case "Styled", "Section":
					style := fieldOf(s, val, "Style", t, strT)
					styled := sameText(tn, flow.StrCat(plainText(style), flow.StrConst(".tmpl")))
					empty := s.Decide(flow.Eq(style, flow.StrConst("")))
					ok = styled && (name == "Styled" || empty == 0) || name == "Section" && tn == plain && empty == 1
					want = "the one its style names"
				case "Lazy":
					// nothing came of it: empty text
					want = "the one of what it yields"
					for _, f := range s.Items("forced") {
						ok = ok || s.IsNil(f.Terms[0]) == 1 && tn == flow.StrConst("string.tmpl") && !data.Mentions(val)
					}
				default:
					ok = tn == plain
				}
				if !ok {
					c.VP("name:"+key, ex.Pos, s.Path(), "%s renders %s with template %s instead of %s", en, name, tn, want)
				}
				// the data
				d := unwrap(data)
				wantD := val
				if name == "TableOfContents" {
					wantD = fieldOf(s, val, "Section", t, nil)
				}
				if name != "Lazy" && d != wantD && !wholeOf(s, d, wantD, t) {
					c.VP("data:"+key, ex.Pos, s.Path(), "%s renders %s with %s as the data of its template", en, name, data)
				}
				// the result
				res := ex.Res[0]
				for res.Op == "conv" && len(res.Args) == 1 {
					res = res.Args[0]
				}
				if !(res.Op == "written" && res.Args[0] == w) {
					c.VP("result:"+key, ex.Pos, s.Path(), "rendering %s with %s yields %s, not what its template wrote", name, en, ex.Res[0])
				}
				done++
			}
			if done == 0 && !m.delegated {
				c.V("never:"+key, fn.Pos(), "%s never renders %s", en, name)
			}
			c.Sample("%s: %s", key, special[name])
		}
		c.pageTemplate(e)
	}
	c.Need("successful renderings", 2)
	c.Need("pages", 2)
}

// methodNamed reports whether visitors have a method of that name.
func (c *C) methodNamed(name string) bool {
	vi := c.P.iface(mod, "Visitor")
	for i := 0; vi != nil && i < vi.NumMethods(); i++ {
		if vi.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// fieldOf is a field of a value or of what it points to.
func fieldOf(s *flow.State, v *flow.Term, f string, t types.Type, ft types.Type) *flow.Term {
	if x := fieldTypeOf(t, f); x != nil {
		ft = x
	}
	return get(s, v, f, ft)
}

// sameText compares texts up to conversions between string types.
func sameText(a, b *flow.Term) bool { return plainText(a) == plainText(b) }

func plainText(t *flow.Term) *flow.Term {
	if t == nil {
		return nil
	}
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t.Op == "strcat" {
		as := []*flow.Term{}
		for _, a := range t.Args {
			as = append(as, plainText(a))
		}
		return flow.StrCat(as...)
	}
	return t
}

func (c *C) pageTemplate(e types.Type) {
	en := typeName(e)
	fn := c.engineMethod(e, "RenderSection")
	secT := types.NewPointer(c.P.named(mod, "Section"))
	strT := types.Typ[types.String]
	m := &renderModel{c: c, name: en, engine: flow.Sym("param", "engine", fn.Params[0].Type())}
	sec := flow.Sym("param", "section", secT)
	m.out = flow.Sym("param", "out", fn.Params[1].Type())
	args := []*flow.Term{m.engine}
	for _, p := range fn.Params[1:] {
		switch {
		case types.Identical(p.Type(), secT):
			args = append(args, sec)
		default:
			args = append(args, m.out)
		}
	}
	r := &flow.Rule{Call: m.call, Unroll: 8}
	_, exits := c.run(r, fn, args, nil)
	done := 0
	for _, ex := range exits {
		if errPath(ex.St, ex.Res) {
			continue
		}
		s := ex.St
		c.Obl("pages")
		xs := s.Items("executed")
		if len(xs) != 1 {
			c.VP("count:page:"+en, ex.Pos, s.Path(), "rendering a page with %s executes %d templates", en, len(xs))
			continue
		}
		it := xs[0].Terms
		set, tn, w, data := it[0], it[1], it[2], it[3]
		if !set.Mentions(m.engine) {
			c.VP("set:page:"+en, ex.Pos, s.Path(), "%s renders pages with the templates of %s instead of its own", en, set)
		}
		style := s.LoadField(sec, "Style", strT)
		styled := flow.StrCat(plainText(style), flow.StrConst("-page.tmpl"))
		empty := s.Decide(flow.Eq(style, flow.StrConst("")))
		lacking := false
		for _, ms := range s.Items("missing") {
			lacking = lacking || sameText(ms.Terms[0], styled)
		}
		switch {
		case sameText(tn, styled) && empty == 0:
		case sameText(tn, flow.StrConst("page.tmpl")) && (empty == 1 || lacking):
		default:
			c.VP("name:page:"+en, ex.Pos, s.Path(), "%s renders a page with template %s, though its section may have a style with another page template", en, tn)
		}
		if unwrap(data) != sec {
			c.VP("data:page:"+en, ex.Pos, s.Path(), "%s renders a page with %s as the data of its template", en, data)
		}
		okOut := w == m.out
		for _, cp := range s.Items("copied") {
			okOut = okOut || cp.Terms[0].Mentions(w)
		}
		if !okOut {
			c.VP("out:page:"+en, ex.Pos, s.Path(), "%s renders a page to %s", en, w)
		}
		done++
	}
	if done == 0 {
		c.V("never:page:"+en, fn.Pos(), "%s never renders a page", en)
	}
}
