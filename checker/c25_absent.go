package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C25", Title: "Absent optional content never crashes",
		Rule:  "Every function is walked symbolically, helpers followed. Values which may be absent are: the content of targets, tags and references, the resolved tag of a reference, the parent of a section, partials looked up or ranged over, the result of lazy content, of evaluating, of stripping absent content and of a called function, and results of functions which can return nothing. At every point where such a value is used - a method is called on it, a field read, it is asserted to have a type - it must be known to be present on that path, and it must be present where it is stored as content which has to be there. Maps of partials must be known to exist before they are written to.",
		Trust: []string{"content which is not documented to be optional is present", "plugins and templates outside the repository check what they use"},
		Run:   runC25,
	})
}

type absent struct {
	c        *C
	con      *types.Named
	conI     *types.Interface
	vis      []*types.Interface
	strip    *ssa.Function
	force    *ssa.Function
	tag      *ssa.Function
	optional map[string]bool
	given    map[*ssa.Function]bool // may be given absent content
	returns  map[*ssa.Function]bool // can return nothing without an error
	followed map[*ssa.Function]bool // calls of it were followed
	opaque   map[*ssa.Function]bool // some calls of it were not followed
	taken    map[*ssa.Function]bool // is used other than by calling it
}

// structName is the name of the module's struct a value is or points to.
func (a *absent) structName(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), mod) {
		return ""
	}
	return n.Obj().Name()
}

func (a *absent) isContent(t types.Type) bool {
	return t != nil && types.Identical(t, a.con)
}

// visitorResult is the field visiting leaves its content in.
func (a *absent) visitorResult(t types.Type) string {
	if t == nil {
		return ""
	}
	p := t
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		p = types.NewPointer(t)
	}
	is := false
	for _, v := range a.vis {
		is = is || v != nil && types.Implements(p, v)
	}
	st := structOf(p)
	for i := 0; is && st != nil && i < st.NumFields(); i++ {
		if a.isContent(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// source describes why a value may be absent.
func (a *absent) source(x *flow.Exec, t *flow.Term, depth int) string {
	for t.Op == "iface" && a.isContent(t.Typ) {
		t = t.Args[0]
	}
	switch t.Op {
	case "nil":
		return "nothing"
	case "maybe":
		return t.Str
	case "field":
		n := a.structName(t.Args[0].Typ)
		if a.optional[n+"."+t.Str] {
			return "the " + strings.ToLower(t.Str) + " of a " + strings.ToLower(n)
		}
		if n != "" && a.visitorResult(t.Args[0].Typ) == t.Str {
			return "the result of evaluating"
		}
	case "lookup":
		if t.Args[0].Typ != nil {
			if k := t.Args[1]; k.Op == "elem" && presentKeys(x, k.Args[0], t.Args[0]) {
				return ""
			}
			if m, ok := t.Args[0].Typ.Underlying().(*types.Map); ok && a.isContent(m.Elem()) {
				return "a partial"
			}
		}
	case "call":
		if f := flow.FuncByName(a.c.P.SSA, flow.CallName(t)); f != nil && a.returns[f] {
			return "what " + f.Name() + " returns"
		}
	case "mphi", "loopphi", "phi":
		r := x.Rec[t]
		if r == nil || depth > 3 {
			return ""
		}
		for _, m := range []map[*flow.Term]bool{r.Init, r.Steps} {
			for v := range m {
				if v != t && r.Absent[v] && !v.Has(func(u *flow.Term) bool { return u == t && v.Op != "field" }) {
					if w := a.source(x, v, depth+1); w != "" && w != "nothing" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// missing describes why a value may be absent here.
func (a *absent) missing(x *flow.Exec, s *flow.State, t *flow.Term) string {
	w := a.source(x, t, 0)
	if w == "" {
		return ""
	}
	switch s.IsNil(t) {
	case 0:
		return ""
	case 1:
		return w
	}
	for t.Op == "iface" {
		t = t.Args[0]
		if s.IsNil(t) == 0 {
			return ""
		}
	}
	return w
}

func runC25(c *C) {
	a := &absent{c: c, con: c.P.named(mod, "Content"), conI: c.P.iface(mod, "Content"), optional: map[string]bool{}, returns: map[*ssa.Function]bool{}}
	a.vis = []*types.Interface{c.P.iface(mod, "Visitor"), c.P.iface(astPkg, "Visitor")}
	a.strip = c.P.fn(mod, "StripAux")
	a.force = c.P.method(mod, "Lazy", "Force")
	a.tag = c.P.method(mod, "Reference", "Tag")
	for _, f := range []string{"Target.Content", "Tag.Content", "Reference.Content", "Section.Parent"} {
		a.optional[f] = true
		p := strings.SplitN(f, ".", 2)
		if n := c.P.named(mod, p[0]); n == nil || fieldTypeOf(n, p[1]) == nil {
			c.V("anchor:"+f, token.NoPos, "%s no longer exists", f)
			return
		}
	}
	if a.con == nil || a.conI == nil {
		c.V("anchor:Content", token.NoPos, "there is no content any more")
		return
	}
	if st := structOf(c.P.named(mod, "Reference")); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if p, ok := st.Field(i).Type().(*types.Pointer); ok && a.structName(p) == "Tag" {
				a.optional["Reference."+st.Field(i).Name()] = true
			}
		}
	}
	for _, pk := range c.P.scope() {
		if !strings.HasPrefix(pk.PkgPath, mod) {
			continue
		}
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			if a.canReturnNothing(f) {
				a.returns[f] = true
			}
		}
	}
	// stripping and rendering have to cope with absent content
	a.given = map[*ssa.Function]bool{}
	if a.strip != nil {
		a.given[a.strip] = true
	}
	for _, e := range c.templateFuncs(renderPkg) {
		f := e.Fn
		if strings.HasPrefix(f.Synthetic, "bound method") {
			if m, ok := f.Object().(*types.Func); ok {
				f = c.P.SSA.FuncValue(m)
			}
		}
		if f != nil && (e.Name == "render" || e.Name == "stripAux") {
			a.given[f] = true
		}
	}
	a.followed, a.opaque = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	later := []*ssa.Function{}
	for _, pk := range c.P.scope() {
		if !strings.HasPrefix(pk.PkgPath, mod) || strings.Contains(pk.PkgPath, "/ci") {
			continue
		}
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			if f.Parent() != nil && !a.given[f] || len(f.Blocks) == 0 || f.Synthetic != "" || strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, ".peg.go") || strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, "bindata.go") {
				continue
			}
			if a.onlyCalled(f) {
				later = append(later, f)
				continue
			}
			a.walk(f)
		}
	}
	// helpers are judged with the functions calling them, if these follow them
	for again := true; again; {
		again = false
		for i, f := range later {
			if f != nil && (a.opaque[f] || !a.followed[f]) && (a.opaque[f] || !again) {
				later[i] = nil
				again = true
				a.walk(f)
			}
		}
	}
	c.Need("uses of what may be absent", 10)
	c.Need("functions", 50)
	c.Need("functions given absent content", 2)
}

// canReturnNothing: a lone result of a module function which may be nil.
func (a *absent) canReturnNothing(f *ssa.Function) bool {
	if f == a.strip || f.Signature.Results().Len() != 1 {
		return false
	}
	t := f.Signature.Results().At(0).Type()
	if _, ok := t.(*types.Pointer); !(ok && a.structName(t) != "") && !a.isContent(t) {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			if k, ok := r.Results[0].(*ssa.Const); ok && k.IsNil() {
				return true
			}
		}
	}
	return false
}

// mandatory: content which has to be there.
func (a *absent) mandatory(st types.Type, field string, ft types.Type) bool {
	if !a.isContent(ft) {
		return false
	}
	n := a.structName(st)
	if n == "" || a.optional[n+"."+field] {
		return false
	}
	switch n {
	case "Target", "Tag", "Reference", "Lazy":
		return false
	}
	t := st
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Implements(t, a.conI) || types.Implements(types.NewPointer(t), a.conI) || n == "Definition"
}

func (a *absent) walk(f *ssa.Function) {
	c := a.c
	c.Obl("functions")
	name := short(f.String())
	args := []*flow.Term{}
	for _, p := range f.Params {
		t := flow.Sym("param", p.Name(), p.Type())
		if a.given[f] && a.isContent(p.Type()) {
			t = flow.Sym("maybe", "the content it is given", p.Type(), t)
			c.Obl("functions given absent content")
		}
		args = append(args, t)
	}
	use := func(x *flow.Exec, s *flow.State, t *flow.Term, typ types.Type, pos token.Pos, what string) {
		if !a.relevant(typ) || a.source(x, t, 0) == "" {
			return
		}
		c.Obl("uses of what may be absent")
		if w := a.missing(x, s, t); w != "" {
			c.VP("absent:"+name+":"+w, pos, s.Path(), "%s %s %s, which may be absent", name, what, w)
		}
	}
	r := &flow.Rule{Keep: loopSyms}
	r.Inline = func(g *ssa.Function) bool {
		return g.Parent() != nil || g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), mod) && !token.IsExported(g.Name()) || len(g.Blocks) <= 6
	}
	r.Instr = func(x *flow.Exec, s *flow.State, i ssa.Instruction) {
		switch i := i.(type) {
		case *ssa.FieldAddr:
			use(x, s, x.Val(s, i.X), i.X.Type(), i.Pos(), "uses")
		case *ssa.UnOp:
			if i.Op == token.MUL {
				if t := x.Val(s, i.X); t.Op != "fa" && t.Op != "ia" && t.Op != "alloc" && t.Op != "global" {
					use(x, s, t, i.X.Type(), i.Pos(), "reads")
				}
			}
		case *ssa.TypeAssert:
			if !i.CommaOk {
				use(x, s, x.Val(s, i.X), i.X.Type(), i.Pos(), "asserts the type of")
			}
		case *ssa.MapUpdate:
			m := x.Val(s, i.Map)
			if a.structName(i.Map.Type()) == "Partials" && m.Op == "field" {
				c.Obl("writes of partials")
				if s.IsNil(m) != 0 {
					c.VP("nomap:"+name, i.Pos(), s.Path(), "%s writes to partials which may not exist yet", name)
				}
			}
		}
	}
	r.Store = func(x *flow.Exec, s *flow.State, addr, v *flow.Term, i ssa.Instruction) {
		if addr.Op != "fa" || !a.mandatory(addr.Args[0].Typ, addr.Str, addr.Typ) {
			return
		}
		c.Obl("content stored")
		if w := a.missing(x, s, v); w != "" && w != "nothing" {
			c.VP("stored:"+name+":"+w, i.Pos(), s.Path(), "%s stores %s, which may be absent, as the %s of a %s", name, w, strings.ToLower(addr.Str), strings.ToLower(a.structName(addr.Args[0].Typ)))
		}
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee != nil {
			if x.InlineOK(s, ci.Callee) {
				a.followed[ci.Callee] = true
			} else {
				a.opaque[ci.Callee] = true
			}
		}
		if ci.Callee == a.strip && f != a.strip && a.strip != nil {
			if w := a.missing(x, s, ci.Args[0]); w != "" {
				return one(s, flow.Sym("maybe", w, a.con, ci.Args[0])), true
			}
			t := flow.Sym("stripped", "", a.con, ci.Args[0])
			s.Assume(flow.Eq(t, flow.Nil()), false)
			return one(s, t), true
		}
		if a.force != nil && ci.Callee == a.force {
			outs := forkErr(x, s, ci)
			for i, o := range outs {
				e := flow.Sym("result", "1", types.Universe.Lookup("error").Type(), o.Res)
				outs[i].Res = flow.Sym("tuple", "", nil, flow.Sym("maybe", "the result of lazy content", a.con, o.Res), e)
			}
			return outs, true
		}
		if a.tag != nil && ci.Callee == a.tag && f != a.tag {
			outs := forkErr(x, s, ci)
			for i, o := range outs {
				e := flow.Sym("result", "1", types.Universe.Lookup("error").Type(), o.Res)
				outs[i].Res = flow.Sym("tuple", "", nil, flow.Sym("maybe", "the tag of a reference", a.tag.Signature.Results().At(0).Type(), ci.Args[0]), e)
			}
			return outs, true
		}
		if strings.HasSuffix(ci.Name, "reflect.Value).Interface") {
			return one(s, flow.Sym("maybe", "what a function returned", types.NewInterfaceType(nil, nil), ci.Args...)), true
		}
		if ci.Method != nil && len(ci.Args) > 0 {
			use(x, s, ci.Args[0], ci.Method.Signature().Recv().Type(), ci.Pos, "uses")
		} else if ci.Callee != nil && ci.Callee.Signature.Recv() != nil && len(ci.Args) > 0 && !x.InlineOK(s, ci.Callee) {
			if _, ok := ci.Callee.Signature.Recv().Type().(*types.Pointer); ok && !a.checksSelf(ci.Callee) {
				use(x, s, ci.Args[0], ci.Callee.Signature.Recv().Type(), ci.Pos, "calls "+ci.Callee.Name()+" on")
			}
		}
		// visiting may leave nothing behind
		if strings.HasSuffix(ci.Name, ".Visit") && len(ci.Args) == 2 {
			if v := unwrap(ci.Args[1]); v.Op == "alloc" {
				if fld := a.visitorResult(v.Typ); fld != "" {
					outs := forkErr(x, s, ci)
					for _, o := range outs {
						o.St.StoreTo(flow.FieldAddr(v, fld, a.con), flow.Sym("maybe", "the result of evaluating", a.con, ci.Args[0]))
					}
					return outs, true
				}
			}
		}
		return nil, false
	}
	c.run(r, f, args, nil)
}

// checksSelf: the method can be called on nothing.
func (a *absent) checksSelf(f *ssa.Function) bool {
	if len(f.Params) == 0 || len(f.Blocks) == 0 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if b, ok := i.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && b.X == f.Params[0] {
			if k, ok := b.Y.(*ssa.Const); ok && k.IsNil() {
				return true
			}
		}
	}
	return false
}

// relevant: content, or pointers to and plain values of the module.
func (a *absent) relevant(t types.Type) bool {
	if a.isContent(t) || types.Identical(t.Underlying(), types.NewInterfaceType(nil, nil)) {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok && a.structName(t) != ""
}

// onlyCalled: an unexported function which is nothing but called directly.
func (a *absent) onlyCalled(f *ssa.Function) bool {
	if f.Parent() != nil || token.IsExported(f.Name()) || a.given[f] || f.Name() == "init" || f.Name() == "main" {
		return false
	}
	if a.taken == nil {
		a.taken = map[*ssa.Function]bool{}
		for _, pk := range a.c.P.scope() {
			for _, g := range a.c.P.allFuncs(pk.PkgPath) {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						called := -1
						if ci, ok := i.(*ssa.Call); ok && !ci.Call.IsInvoke() {
							called = 0
						} else if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
							for _, h := range a.c.P.allFuncs(mod) {
								if h.Name() == ci.Common().Method.Name() && !token.IsExported(h.Name()) {
									a.taken[h] = true
								}
							}
						}
						for k, o := range i.Operands(nil) {
							if o == nil || k == called {
								continue
							}
							if h, ok := (*o).(*ssa.Function); ok {
								a.taken[h] = true
								if m, ok := h.Object().(*types.Func); ok && h.Synthetic != "" {
									a.taken[a.c.P.SSA.FuncValue(m)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return !a.taken[f]
}
