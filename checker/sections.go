package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// fieldStore is a store to a field of a struct of the module.
type fieldStore struct {
	Fn    *ssa.Function
	Instr *ssa.Store
	Fresh bool // of a value this function made
}

// fieldStores lists the stores to a field in the module's own packages.
func (c *C) fieldStores(n *types.Named, field string) []fieldStore {
	out := []fieldStore{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					a := st.Addr
					for {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if types.Identical(pt, n) && structOf(pt).Field(fa.Field).Name() == field {
							_, fresh := fa.X.(*ssa.Alloc)
							out = append(out, fieldStore{f, st, fresh})
							break
						}
						a = fa.X
					}
				}
			}
		}
	}
	return out
}

// reach lists the functions of the module reachable by static calls, through
// closures and function values.
func (p *Prog) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || out[f] || f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// exists verifies by induction that a predicate function holds exactly if some
// section from its argument upwards satisfies pred.
func (ch *chain) exists(f *ssa.Function, pred func(cur *flow.Term, args []*flow.Term) *flow.Term) bool {
	sig := f.Signature
	if len(f.Blocks) == 0 || len(f.Params) == 0 || !ch.isSec(f.Params[0].Type()) || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
		return false
	}
	args := []*flow.Term{}
	for i, p := range f.Params {
		args = append(args, flow.Sym("param", "exists"+itoa(i), p.Type()))
	}
	sec := args[0]
	again := func(a []*flow.Term) *flow.Term {
		return flow.Sym("pure", "exists:"+f.String(), types.Typ[types.Bool], a...)
	}
	bad := false
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == f {
			for i := 1; i < len(args); i++ {
				bad = bad || ci.Args[i] != args[i]
			}
			return one(s, again(ci.Args)), true
		}
		return nil, false
	}}
	saved, mute := ch.c.exits, ch.c.mute
	nv := len(ch.c.viol)
	x, exits := ch.c.run(r, f, args, nil)
	ch.c.exits, ch.c.mute = saved, mute
	ch.c.viol = ch.c.viol[:nv]
	if bad || len(exits) == 0 {
		return false
	}
	up := again(append([]*flow.Term{ch.parent(sec)}, args[1:]...))
	p := pred(sec, args)
	noP := flow.Eq(ch.parent(sec), flow.Nil())
	ends := true // it is false of no section
	for _, e := range exits {
		v, known := e.Res[0].IsBool()
		ends = ends && (e.St.IsNil(sec) == 0 || e.St.IsNil(sec) == 1 && known && !v)
	}
	for _, e := range exits {
		for _, want := range []bool{true, false} {
			fact := e.Res[0]
			if b, ok := fact.IsBool(); ok {
				if b != want {
					continue
				}
				fact = flow.Eq(flow.Int(0), flow.Int(0))
			} else if !want {
				fact = flow.Not(fact)
			}
			s := consistent(e.St, fact)
			if s == nil {
				continue
			}
			ok := false
			if want {
				ok = s.Decide(p) == 1 || s.Decide(up) == 1 && (ends || s.Decide(noP) == 0)
				for _, cl := range ch.climbers(x) {
					if cl.init == sec && s.Decide(pred(cl.cur, args)) == 1 {
						ok = true
					}
				}
			} else {
				ok = ends && s.IsNil(sec) == 1 || s.Decide(p) == 0 && (s.Decide(noP) == 1 || s.Decide(up) == 0)
				for _, cl := range ch.climbers(x) {
					if cl.init != sec || s.SubstState(cl.subst) == nil {
						continue
					}
					st := s.SubstState(cl.subst)
					over := st.IsNil(cl.cur) == 1 || st.IsNil(ch.parent(cl.cur)) == 1 && st.Decide(pred(cl.cur, args)) == 0
					for _, it := range x.LoopSums[cl.loop].Iters {
						over = over && excluded(it.St, []*flow.Term{pred(cl.cur, args)}) && it.Steps[cl.cur] != cl.cur
					}
					ok = ok || over
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// filePathRule verifies Section.FilePath by induction: the nearest path from
// the section upwards.
func filePathRule(c *C, ch *chain, secN *types.Named) {
	f := c.meth(mod, "Section", "FilePath")
	sec := flow.Sym("param", "section", ch.secT)
	str := types.Typ[types.String]
	path := func(s *flow.Term) *flow.Term { return flow.Field(s, "Path", str) }
	again := func(a *flow.Term) *flow.Term { return flow.Sym("pure", "filepath", str, a) }
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == f {
			return one(s, again(ci.Args[0])), true
		}
		return nil, false
	}}
	x, exits := c.run(r, f, []*flow.Term{sec}, nil)
	empty := func(t *flow.Term) *flow.Term { return flow.Eq(path(t), flow.StrConst("")) }
	noP := func(t *flow.Term) *flow.Term { return flow.Eq(ch.parent(t), flow.Nil()) }
	for _, e := range exits {
		c.Obl("file paths")
		res := e.Res[0]
		ok := false
		switch {
		case res == path(sec):
			ok = excluded(e.St, []*flow.Term{empty(sec), flow.Not(noP(sec))})
		case res == again(ch.parent(sec)):
			ok = excluded(e.St, []*flow.Term{flow.Not(empty(sec))}) && excluded(e.St, []*flow.Term{noP(sec)})
		default:
			if v, k := res.IsStr(); k && v == "" {
				ok = excluded(e.St, []*flow.Term{flow.Not(empty(sec))}) && excluded(e.St, []*flow.Term{flow.Not(noP(sec))})
			}
			for _, cl := range ch.climbers(x) {
				st := e.St.SubstState(cl.subst)
				if cl.init != sec || st == nil {
					continue
				}
				good := true
				for _, it := range x.LoopSums[cl.loop].Iters {
					good = good && excluded(it.St, []*flow.Term{flow.Not(empty(cl.cur))}) && it.Steps[cl.cur] != cl.cur
				}
				if res == path(cl.cur) {
					ok = ok || good && excluded(st, []*flow.Term{empty(cl.cur), flow.Not(noP(cl.cur))})
				} else if v, k := res.IsStr(); k && v == "" {
					ok = ok || good && excluded(st, []*flow.Term{flow.Not(flow.Eq(cl.cur, flow.Nil())), flow.Not(noP(cl.cur))}) || good && excluded(st, []*flow.Term{flow.Not(flow.Eq(cl.cur, flow.Nil()))})
				}
			}
		}
		if !ok {
			c.VP("filepath", e.Pos, e.St.Path(), "the file of a section is %s, which is not shown to be the nearest path from it upwards", res)
		}
	}
	if len(exits) == 0 {
		c.V("filepath", f.Pos(), "FilePath never returns")
	}
}

// sectionMaker follows Processor.EvaluateFile and EvaluateNode.
type sectionMaker struct {
	what string
	fn   *ssa.Function
	args []*flow.Term
	path *flow.Term
}

func newSectionMakers(c *C) []*sectionMaker {
	out := []*sectionMaker{}
	for _, n := range []string{"EvaluateFile", "EvaluateNode"} {
		fn := c.meth(mod+"/load", "Processor", n)
		m := &sectionMaker{what: n, fn: fn}
		for i, p := range fn.Params {
			m.args = append(m.args, flow.Sym("param", []string{"processor", "parent", "source", "factories"}[i%4], p.Type()))
		}
		m.path = flow.StrConst("")
		if n == "EvaluateFile" {
			m.path = m.args[2]
		}
		out = append(out, m)
	}
	return out
}

// appended: the list is the old one followed by one element.
func appended(t, old *flow.Term) *flow.Term {
	if t.Op == "cat" && len(t.Args) == 2 && t.Args[0].Op == "spread" && t.Args[0].Args[0] == old && t.Args[1].Op == "one" {
		return t.Args[1].Args[0]
	}
	return nil
}

// live lists the functions which something outside the module, or the
// program itself, may reach: exported functions, methods, and init.
func (p *Prog) live() map[*ssa.Function]bool {
	if p.liveFns == nil {
		roots := []*ssa.Function{}
		for _, pk := range p.scope() {
			for _, f := range p.allFuncs(pk.PkgPath) {
				if f.Parent() == nil && (f.Signature.Recv() != nil || token.IsExported(f.Name()) || f.Name() == "init" || f.Name() == "main") {
					roots = append(roots, f)
				}
			}
		}
		p.liveFns = p.reach(roots...)
	}
	return p.liveFns
}

// onlyNew reports stores to fields of sections which the analysed call did not
// make.
func (b *basePlugin) onlyNew(what string, fields ...string) func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
	return b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
		for _, f := range fields {
			if f == field && base.Op != "alloc" {
				b.c.VP("store:"+what+":"+f, instr.Pos(), s.Path(), "%s sets %s of %s, which it did not make", what, f, base)
			}
		}
	})
}
