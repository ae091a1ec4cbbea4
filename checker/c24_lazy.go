package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C24", Title: "Lazy content is evaluated at most once",
		Rule:  "Every function which calls the function kept in lazy content must do so, on every path, from within the Do of the one sync.Once of the same value (or the kept function is the result of sync.OnceValues); both results of that call must be stored in the value before the Do returns, are stored nowhere else, and are what forcing returns on every path. The once, the function and the kind are set on construction only. The functions forcing lazy content are traced to their callers, which must all be renderers' VisitLazy; these must visit what forcing yields.",
		Trust: []string{"sync.Once and sync.OnceValues"},
		Run:   runC24,
	})
}

func runC24(c *C) {
	lazyN := c.P.named(mod, "Lazy")
	lazyT := types.NewPointer(lazyN)
	force := c.meth(mod, "Lazy", "Force")
	recv := flow.Sym("param", "lazy", lazyT)
	st := structOf(lazyN)
	if st == nil {
		c.V("anchor:Lazy", token.NoPos, "lazy content is not a structure")
		return
	}
	isLazy := func(t types.Type) bool { return types.Identical(t, lazyT) || types.Identical(t, lazyN) }
	// the fields by what they hold
	var fnF []*types.Var
	memo := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			fnF = append(fnF, f)
			stores := c.fieldStores(lazyN, f.Name())
			all := len(stores) > 0
			for _, s := range stores {
				call, ok := s.Instr.Val.(*ssa.Call)
				all = all && ok && call.Common().StaticCallee() != nil && strings.HasPrefix(call.Common().StaticCallee().String(), "sync.OnceValue")
			}
			memo[f.Name()] = all
		}
	}
	onceT := func(t types.Type) bool {
		return strings.TrimPrefix(t.String(), "*") == "sync.Once"
	}
	// functions which use the kept function
	uses := map[*ssa.Function]bool{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && types.Identical(s.Val.Type(), lazyN) {
						if _, fresh := s.Addr.(*ssa.Alloc); !fresh {
							c.V("copy:"+f.Name(), s.Pos(), "%s overwrites lazy content", f.Name())
						}
					}
					fa, ok := i.(*ssa.FieldAddr)
					if !ok {
						if v, ok := i.(*ssa.Field); ok && types.Identical(v.X.Type(), lazyN) {
							for _, ff := range fnF {
								if st.Field(v.Field) == ff {
									uses[f] = true
								}
							}
						}
						continue
					}
					if !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), lazyN) {
						continue
					}
					for _, ff := range fnF {
						if structOf(lazyN).Field(fa.Field) != ff {
							continue
						}
						for _, u := range *fa.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok {
								for _, lu := range *l.Referrers() {
									if _, cmp := lu.(*ssa.BinOp); !cmp {
										uses[f] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	raw := map[*ssa.Function]bool{} // functions using it, and those they are part of
	for f := range uses {
		for p := f; p != nil; p = p.Parent() {
			raw[p] = true
		}
	}
	// forcing
	stored := map[string]int{} // result field -> component
	r := &flow.Rule{Reenter: 1}
	isDo := func(ci *flow.CallInfo) bool { return ci.Name == "(*sync.Once).Do" }
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if isDo(ci) {
			own := false
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if onceT(f.Type()) {
					if _, p := f.Type().Underlying().(*types.Pointer); p {
						own = own || ci.Args[0] == s.LoadField(recv, f.Name(), f.Type())
					} else {
						own = own || ci.Args[0].Op == "fa" && ci.Args[0].Str == f.Name() && ci.Args[0].Args[0] == recv
					}
				}
			}
			if !own {
				c.VP("once", ci.Pos, s.Path(), "lazy content is evaluated under %s, which is not the value's own once", ci.Args[0])
			}
			done := s.Clone()
			done.AddSticky("done")
			c.Obl("once sections")
			f := x.Enter(s, ci, ci.Args[1], nil)
			if f == nil {
				c.VP("once:opaque", ci.Pos, s.Path(), "what runs once cannot be determined")
				return one(done, flow.Nil()), true
			}
			s.AddSticky("entered", flow.StrConst(f.String()))
			return []flow.Outcome{{St: s, Res: flow.Nil()}, {St: done, Res: flow.Nil()}}, true
		}
		if ci.Name == "dynamic" && ci.Func != nil {
			for _, f := range fnF {
				if ci.Func != s.LoadField(recv, f.Name(), f.Type()) && ci.Func != flow.Field(recv, f.Name(), f.Type()) {
					continue
				}
				c.Obl("calls of the kept function")
				within := false
				for _, it := range s.Items("entered") {
					name, _ := it.Terms[0].IsStr()
					for _, fr := range s.Frames {
						within = within || fr.Fn.String() == name
					}
				}
				if !within && !memo[f.Name()] {
					c.VP("once", ci.Pos, s.Path(), "the function of lazy content is called without being guarded by its once")
				}
				if len(s.Items("called")) > 0 {
					c.VP("twice", ci.Pos, s.Path(), "the function of lazy content is called more than once")
				}
				res := x.OpaqueResult(s, ci)
				s.AddSticky("called", res)
				return one(s, res), true
			}
		}
		return nil, false
	}
	comp := func(t *flow.Term, i int, typ types.Type) *flow.Term {
		return flow.Sym("result", itoa(i), typ, t)
	}
	resT := force.Signature.Results()
	_, exits := c.run(r, force, []*flow.Term{recv}, nil)
	ran := false
	for _, e := range exits {
		called := e.St.Items("called")
		if len(called) == 0 {
			continue
		}
		ran = true
		for i := 0; i < resT.Len(); i++ {
			want := comp(called[0].Terms[0], i, resT.At(i).Type())
			if !sameVal(e.St, e.Res[i], want, resT.At(i).Type()) {
				c.VP("result", e.Pos, e.St.Path(), "forcing for the first time yields %s instead of what the function returned", e.Res[i])
			}
			for k := 0; k < st.NumFields(); k++ {
				f := st.Field(k)
				if types.Identical(f.Type(), resT.At(i).Type()) && sameVal(e.St, e.St.LoadField(recv, f.Name(), f.Type()), want, f.Type()) {
					if j, ok := stored[f.Name()]; !ok || j == i {
						stored[f.Name()] = i
					}
				}
			}
		}
	}
	for _, e := range exits {
		c.Obl("ways out of forcing")
		if len(e.St.Items("called")) > 0 {
			continue
		}
		if !e.St.Has("done") {
			c.VP("unforced", e.Pos, e.St.Path(), "forcing lazy content can return without having evaluated it")
			continue
		}
		for i := 0; i < resT.Len(); i++ {
			ok := false
			for f, j := range stored {
				ok = ok || j == i && e.Res[i] == flow.Field(recv, f, fieldTypeOf(lazyN, f))
			}
			if !ok {
				c.VP("again", e.Pos, e.St.Path(), "forcing again yields %s instead of what the function returned the first time", e.Res[i])
			}
		}
	}
	if !ran {
		c.V("never", force.Pos(), "forcing lazy content never evaluates it")
	}
	// who writes
	inForce := c.P.reach(force)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		_, isRes := stored[f.Name()]
		for _, fs := range c.fieldStores(lazyN, f.Name()) {
			c.Obl("stores to lazy content")
			if fs.Fresh || isRes && inForce[fs.Fn] {
				continue
			}
			c.V("store:"+f.Name(), fs.Instr.Pos(), "%s changes %s of existing lazy content", fs.Fn.Name(), f.Name())
		}
	}
	for f := range raw {
		if !inForce[f] {
			c.V("use:"+f.Name(), f.Pos(), "%s uses the function of lazy content without forcing it", f.Name())
		}
	}
	// constructors
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			res := f.Signature.Results()
			if f.Parent() != nil || res.Len() != 1 || !isLazy(res.At(0).Type()) || f.Signature.Recv() != nil || !token.IsExported(f.Name()) {
				continue
			}
			var fnArg *flow.Term
			args := []*flow.Term{}
			for _, p := range f.Params {
				a := flow.Sym("param", p.Name(), p.Type())
				args = append(args, a)
				if _, ok := p.Type().Underlying().(*types.Signature); ok {
					fnArg = a
				}
			}
			_, exits := c.run(&flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
				if ci.Name == "dynamic" {
					c.VP("made:"+f.Name(), ci.Pos, s.Path(), "%s calls the function it is given", f.Name())
				}
				if strings.HasPrefix(ci.Name, "sync.OnceValue") {
					return one(s, flow.Sym("pure", "memo", ci.Result, ci.Args[0])), true
				}
				return nil, false
			}}, f, args, nil)
			for _, e := range exits {
				c.Obl("constructors")
				v := unwrap(e.Res[0])
				hasFn, hasOnce := false, false
				for i := 0; i < st.NumFields(); i++ {
					sf := st.Field(i)
					got := e.St.LoadField(v, sf.Name(), sf.Type())
					if memo[sf.Name()] && got.Op == "pure" && got.Str == "memo" && got.Args[0] == fnArg {
						hasFn, hasOnce = true, true
					}
					hasFn = hasFn || got == fnArg && !memo[sf.Name()]
					if onceT(sf.Type()) {
						_, p := sf.Type().Underlying().(*types.Pointer)
						hasOnce = hasOnce || !p || e.St.IsNil(got) == 0 && (got.Op == "alloc")
					}
				}
				if !hasFn {
					c.VP("made:"+f.Name(), e.Pos, e.St.Path(), "%s does not keep the function it is given", f.Name())
				}
				if !hasOnce {
					c.VP("made:once:"+f.Name(), e.Pos, e.St.Path(), "%s makes lazy content without a once of its own", f.Name())
				}
				if bt := fieldTypeOf(lazyN, "Block"); bt != nil {
					want := strings.HasSuffix(f.Name(), "Block")
					if known := strings.HasSuffix(f.Name(), "Block") || strings.HasSuffix(f.Name(), "Flow"); known {
						if b, ok := e.St.LoadField(v, "Block", bt).IsBool(); !ok || b != want {
							c.VP("made:kind:"+f.Name(), e.Pos, e.St.Path(), "%s makes lazy content of the other kind", f.Name())
						}
					}
				}
			}
		}
	}
	// who forces
	callers := map[*ssa.Function]map[*ssa.Function]token.Pos{}
	top := func(f *ssa.Function) *ssa.Function {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f
	}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if callers[g] == nil {
								callers[g] = map[*ssa.Function]token.Pos{}
							}
							callers[g][top(f)] = i.Pos()
						}
					}
				}
			}
		}
	}
	visI := c.P.iface(mod, "Visitor")
	renders := func(f *ssa.Function) bool {
		rv := f.Signature.Recv()
		return rv != nil && f.Name() == "VisitLazy" && types.Implements(rv.Type(), visI) && f.Pkg != nil && f.Pkg.Pkg.Path() == renderPkg
	}
	seen := map[*ssa.Function]bool{}
	rendered := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for g, pos := range callers[f] {
			c.Obl("places which force")
			switch {
			case renders(g):
				rendered[g] = true
			case g == f:
			case !token.IsExported(g.Name()) && g.Name() != "init" && len(callers[g]) > 0:
				up(g)
			default:
				c.V("forces:"+g.Name(), pos, "%s evaluates lazy content outside of rendering it", short(g.String()))
			}
		}
	}
	up(force)
	con := c.P.named(mod, "Content")
	for _, t := range c.engines() {
		rendered[c.engineMethod(t, "VisitLazy")] = true
	}
	for g := range rendered {
		lz := flow.Sym("param", "lazy", lazyT)
		x, exits := c.run(&flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == force {
				s.AddSticky("forced", ci.Args[0])
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					o.St.AddSticky("result", o.Res)
				}
				return outs, true
			}
			if ci.Name == "invoke:("+mod+".Content).Visit" {
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					o.St.AddSticky("visited", ci.Args[0])
				}
				return outs, true
			}
			return nil, false
		}}, g, []*flow.Term{nil, lz}, nil)
		_ = x
		for _, e := range exits {
			c.Obl("renderings of lazy content")
			if errPath(e.St, e.Res) {
				continue
			}
			rs := e.St.Items("result")
			if !e.St.Has("forced", lz) || len(rs) == 0 {
				c.VP("render:"+short(g.String()), e.Pos, e.St.Path(), "lazy content can be rendered without evaluating it")
				continue
			}
			got := comp(rs[0].Terms[0], 0, con)
			if t := rs[0].Terms[0]; t.Op == "tuple" {
				got = t.Args[0]
			}
			ok := e.St.IsNil(got) == 1
			for _, it := range e.St.Items("visited") {
				ok = ok || it.Terms[0] == got
			}
			if !ok {
				c.VP("render:"+short(g.String()), e.Pos, e.St.Path(), "rendering lazy content does not render what it evaluates to")
			}
		}
	}
	c.Need("calls of the kept function", 1)
	c.Need("ways out of forcing", 1)
	c.Need("constructors", 1)
	c.Need("places which force", 1)
	c.Need("renderings of lazy content", 1)
}
