package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// chain reasons about functions of a section which follow its parents, by
// recursion or by a loop.
type chain struct {
	c    *C
	secT types.Type
	memo map[*ssa.Function]*flow.Term
}

func newChain(c *C) *chain {
	n := c.P.named(mod, "Section")
	if n == nil || fieldTypeOf(n, "Parent") == nil || fieldTypeOf(n, "SplitSections") == nil {
		c.V("anchor:Section", 0, "sections no longer have a Parent and SplitSections")
		panic(abort{})
	}
	return &chain{c: c, secT: types.NewPointer(n), memo: map[*ssa.Function]*flow.Term{}}
}

func (ch *chain) isSec(t types.Type) bool { return t != nil && types.Identical(t, ch.secT) }

func (ch *chain) parent(t *flow.Term) *flow.Term { return flow.Field(t, "Parent", ch.secT) }

func (ch *chain) boolField(t *flow.Term, f string) *flow.Term {
	return flow.Field(t, f, types.Typ[types.Bool])
}

// climbing describes a loop variable which goes from init up its parents; subst
// replaces other loop variables known to equal its parent.
type climbing struct {
	cur, init *flow.Term
	subst     map[*flow.Term]*flow.Term
	loop      string
}

func (ch *chain) climbers(x *flow.Exec) []climbing {
	out := []climbing{}
	for t, r := range x.Rec {
		if !ch.isSec(t.Typ) || len(r.Init) != 1 || len(r.Steps) == 0 || x.SymLoop[t] == "" {
			continue
		}
		var init *flow.Term
		for i := range r.Init {
			init = i
		}
		cl := climbing{cur: t, init: init, subst: map[*flow.Term]*flow.Term{}, loop: x.SymLoop[t]}
		// variables running one parent ahead
		for p, pr := range x.Rec {
			if p == t || x.SymLoop[p] != cl.loop || len(pr.Init) != 1 || !pr.Init[ch.parent(init)] || len(pr.Steps) == 0 {
				continue
			}
			ok := len(r.Steps) == 1 && r.Steps[p]
			for s := range pr.Steps {
				ok = ok && s == ch.parent(p)
			}
			if ok {
				cl.subst[p] = ch.parent(t)
			}
		}
		ok := true
		for s := range r.Steps {
			ok = ok && (s == ch.parent(t) || s == t || s.Subst(cl.subst) == ch.parent(t))
		}
		if ok {
			out = append(out, cl)
		}
	}
	return out
}

// own page: without parent, or the parent splits
func (ch *chain) ownPage(t *flow.Term) [][]*flow.Term {
	p := ch.parent(t)
	noP := flow.Eq(p, flow.Nil())
	return [][]*flow.Term{{noP}, {flow.Not(noP), ch.boolField(p, "SplitSections")}}
}

func (ch *chain) notOwnPage(t *flow.Term) []*flow.Term {
	p := ch.parent(t)
	return []*flow.Term{flow.Not(flow.Eq(p, flow.Nil())), flow.Not(ch.boolField(p, "SplitSections"))}
}

// excluded: none of the cases is consistent with the state.
func excluded(s *flow.State, cases ...[]*flow.Term) bool {
	for _, f := range cases {
		if consistent(s, f...) != nil {
			return false
		}
	}
	return true
}

func (ch *chain) ownerTerm(sec *flow.Term) *flow.Term {
	if sec.Op == "pure" && sec.Str == "pageowner" {
		return sec
	}
	return flow.Sym("pure", "pageowner", ch.secT, sec)
}

// ownerLoop: t is the variable of a loop which climbs to the page owner, and the
// loop is over in s; the result is where it started.
func (ch *chain) ownerLoop(x *flow.Exec, s *flow.State, t *flow.Term) *flow.Term {
	for _, cl := range ch.climbers(x) {
		if cl.cur != t {
			continue
		}
		st := s.SubstState(cl.subst)
		if st != nil && !excluded(st, ch.notOwnPage(t)) {
			return nil
		}
		sum := x.LoopSums[cl.loop]
		if sum == nil {
			return nil
		}
		for _, it := range sum.Iters {
			is := it.St.SubstState(cl.subst)
			if is != nil && it.Steps[t] != t && !excluded(is, ch.ownPage(t)...) {
				return nil
			}
		}
		return cl.init
	}
	return nil
}

// owner decides whether a function yields the section whose page a section is
// on.
func (ch *chain) owner(f *ssa.Function) bool {
	if r, ok := ch.memo[f]; ok {
		return r != nil
	}
	ch.memo[f] = nil
	sig := f.Signature
	if len(f.Params) != 1 || !ch.isSec(f.Params[0].Type()) || sig.Results().Len() != 1 || !ch.isSec(sig.Results().At(0).Type()) || len(f.Blocks) == 0 {
		return false
	}
	sec := flow.Sym("param", "sec", ch.secT)
	mute := ch.c.mute
	rec := func(a *flow.Term) *flow.Term { return flow.Sym("pure", "again", ch.secT, a) }
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == f {
			return one(s, rec(ci.Args[0])), true
		}
		return nil, false
	}}
	saved := ch.c.exits
	nv := len(ch.c.viol)
	x, exits := ch.c.run(r, f, []*flow.Term{sec}, nil)
	ch.c.exits, ch.c.mute = saved, mute
	ch.c.viol = ch.c.viol[:nv]
	if len(exits) == 0 {
		return false
	}
	for _, e := range exits {
		res := e.Res[0]
		switch {
		case res == sec:
			if !excluded(e.St, ch.notOwnPage(sec)) {
				return false
			}
		case res == rec(ch.parent(sec)):
			if !excluded(e.St, ch.ownPage(sec)...) {
				return false
			}
		default:
			if ch.ownerLoop(x, e.St, res) != sec {
				return false
			}
		}
	}
	ch.memo[f] = sec
	ch.c.Obl("page owner functions")
	ch.c.Sample("%s yields the section whose page a section is on", short(f.String()))
	return true
}

// norm replaces page owners found by loops inlined in a function.
func (ch *chain) norm(x *flow.Exec, s *flow.State, t *flow.Term) *flow.Term {
	m := map[*flow.Term]*flow.Term{}
	t.Walk(func(u *flow.Term) {
		if (u.Op == "loopphi" || u.Op == "mphi") && ch.isSec(u.Typ) {
			if init := ch.ownerLoop(x, s, u); init != nil {
				m[u] = ch.ownerTerm(init)
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return t.Subst(m)
}

// normState does the same for the facts of a state.
func (ch *chain) normState(x *flow.Exec, s *flow.State) *flow.State {
	m := map[*flow.Term]*flow.Term{}
	for _, cl := range ch.climbers(x) {
		if init := ch.ownerLoop(x, s, cl.cur); init != nil {
			m[cl.cur] = ch.ownerTerm(init)
			for k, v := range cl.subst {
				m[k] = v.Subst(m)
			}
		}
	}
	if len(m) == 0 {
		return s
	}
	return s.SubstState(m)
}
