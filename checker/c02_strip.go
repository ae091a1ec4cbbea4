package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C02", Title: "Stripping auxiliary content removes exactly the auxiliary content",
		Rule:  "For every content type the stripping function is analysed symbolically on a value of that type (visitor methods inlined, loops summarised per iteration, nested strips kept as symbols). On every path the result must be of the same type and derive from the original attribute by attribute: nested content is its stripped original, lists are filters over the whole original list which drop exactly the auxiliary items, partials cover every key, everything else is identical. No store or in-place append may reach the original.",
		Trust: []string{"a piece of content visits itself as its own type (decided by C33)"},
		Run:   runC02,
	})
}

// stripExempt is what stripping leaves as it is.
var stripExempt = map[string]string{}

func init() {
	for k, v := range collectExempt {
		if k != "Target.Title" && k != "Target.Content" {
			stripExempt[k] = v
		}
	}
}

type strip struct {
	c    *C
	x    *flow.Exec
	fn   *ssa.Function
	cv   *cover
	aux  types.Type
	maps []idxStore
}

func (p *strip) of(t *flow.Term) *flow.Term {
	return flow.Sym("pure", "strip", p.c.P.named(mod, "Content"), t)
}

func runC02(c *C) {
	fn := c.fnc(mod, "StripAux")
	auxN := c.P.named(mod, "Aux")
	if auxN == nil {
		c.V("anchor:Aux", token.NoPos, "auxiliary content no longer exists")
		return
	}
	cv := newCover(c, stripExempt)
	for _, t := range c.P.contentTypes() {
		if types.Identical(t, auxN) {
			continue
		}
		p := &strip{c: c, fn: fn, cv: cv, aux: auxN}
		con := flow.Sym("param", "content", t)
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == fn {
				if s.IsNil(ci.Args[0]) == 1 {
					return one(s, flow.Nil()), true
				}
				return one(s, p.of(ci.Args[0])), true
			}
			if ci.Name == "builtin:append" {
				for _, b := range storage(x, ci.Args[0]) {
					if foreign(b) && !isClipped(b) {
						c.V("inplace:"+typeName(t), ci.Pos, "stripping %s reuses the storage of the original list %s", typeName(t), b)
					}
				}
			}
			return nil, false
		}
		r.Store = func(x *flow.Exec, s *flow.State, a, v *flow.Term, ins ssa.Instruction) {
			root := a
			for root.Op == "fa" || root.Op == "ia" {
				root = root.Args[0]
			}
			if root.Op != "alloc" && root.Op != "make" && foreign(root) {
				c.V("mutates:"+typeName(t), ins.Pos(), "stripping %s writes into the original (%s)", typeName(t), a)
			}
		}
		r.MapUpdate = func(x *flow.Exec, s *flow.State, m, k, v *flow.Term, ins ssa.Instruction) {
			if foreign(m) {
				c.V("mutates:"+typeName(t), ins.Pos(), "stripping %s writes into the original partials", typeName(t))
			}
			if !c.mute {
				p.maps = append(p.maps, idxStore{m, k, v, s.Clone()})
			}
			s.Add("put", m, k)
		}
		x, exits := c.run(r, fn, []*flow.Term{flow.Iface(t, con)}, nil)
		p.x = x
		if len(exits) == 0 {
			c.V("noresult:"+typeName(t), fn.Pos(), "stripping %s never returns", typeName(t))
		}
		for _, e := range exits {
			c.Obl("results of stripping a content type")
			res := e.Res[0]
			if res.Op != "iface" || !types.Identical(res.Typ, t) {
				c.VP("kind:"+typeName(t), e.Pos, e.St.Path(), "stripping %s yields %s, which is not of the same kind", typeName(t), res)
				continue
			}
			if why := p.match(e.St, res.Args[0], con, t, true); why != "" {
				c.VP("strip:"+typeName(t), e.Pos, e.St.Path(), "stripping %s: %s", typeName(t), why)
			}
		}
		c.Sample("%s: %d result paths", typeName(t), len(exits))
	}
	c.Need("results of stripping a content type", 15)
}

func isClipped(t *flow.Term) bool { return t.Op == "slice" && len(t.Args) == 4 }

// match explains why got is not the stripped want ("" if it is).
func (p *strip) match(s *flow.State, got, want *flow.Term, t types.Type, top bool) string {
	if pt, ok := t.(*types.Pointer); ok {
		// sections and lazy content are kept; others may be copied
		if got == want {
			if n := typeName(t); n != "Section" && n != "Lazy" && p.cv.bearing(pt.Elem()) {
				return "the nested content is not stripped"
			}
			return ""
		}
		if got.Op != "alloc" {
			return "unexpected result " + got.String()
		}
		got = s.Load(got, pt.Elem())
		return p.match(s, got, flow.Sym("deref", "", pt.Elem(), want), pt.Elem(), false)
	}
	if types.Identical(t.Underlying(), p.cv.ci) {
		if got == p.of(want) || (got.IsNil() || got == want) && s.IsNil(want) == 1 {
			return ""
		}
		return want.String() + " becomes " + got.String() + " instead of being stripped"
	}
	if !p.cv.bearing(t) {
		if sameVal(s, got, want, t) {
			return ""
		}
		return want.String() + " becomes " + got.String()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if why := p.match(s, flow.Field(got, f.Name(), f.Type()), flow.Field(want, f.Name(), f.Type()), p.fieldT(t, f), false); why != "" {
				return why
			}
		}
		return ""
	case *types.Slice:
		return p.matchList(s, got, want, u.Elem())
	case *types.Map:
		return p.matchMap(s, got, want, u)
	}
	return "unexpected result " + got.String()
}

// fieldT: exempt fields must be kept as they are, except displayed content.
func (p *strip) fieldT(t types.Type, f *types.Var) types.Type { return f.Type() }

func (p *strip) matchList(s *flow.State, got, want *flow.Term, et types.Type) string {
	if emptyList(got) && (s.IsNil(want) == 1 || s.Decide(flow.Eq(flow.Len(want), flow.Int(0))) == 1) {
		return ""
	}
	drops := types.Identical(et.Underlying(), p.cv.ci)
	if got.Op == "make" && drops {
		// filled by index
		return "items of " + want.String() + " are copied by position, so auxiliary items are not dropped"
	}
	ps, ok := pieces(p.x, got)
	if !ok || len(ps) != 1 || ps[0].Loop == nil {
		return want.String() + " becomes " + got.String() + ", not a list made from all of its items in order"
	}
	l := ps[0].Loop
	if l.Over != want && drops {
		// what is left after dropping the auxiliary items
		if rest, ok := pieces(p.x, termOr(l.Over)); ok && len(rest) == 1 && rest[0].Loop != nil && rest[0].Loop.Over == want {
			if why := p.matchItems(s, rest[0].Loop, want, et, true, true); why != "" {
				return why
			}
			return p.matchItems(s, l, l.Over, et, false, false)
		}
	}
	if l.Over != want {
		return want.String() + " is made from " + termStr(l.Over)
	}
	return p.matchItems(s, l, want, et, drops, false)
}

// matchItems: what a loop makes of the items of a list, which may include
// auxiliary ones to be dropped; with asis, the others are kept as they are.
func (p *strip) matchItems(s *flow.State, l *loopList, want *flow.Term, et types.Type, drops, asis bool) string {
	if l.left(s) {
		return "not all items of " + want.String() + " are considered"
	}
	kept := false
	for _, it := range l.It {
		isAux := -1
		if drops {
			isAux = it.St.Decide(flow.TypeIs(l.Elem, p.aux))
		} else {
			isAux = 0
		}
		switch {
		case it.Same:
			if isAux != 1 && it.St.IsNil(l.Elem) != 1 {
				return "an item of " + want.String() + " which is not auxiliary can be dropped (" + it.St.Path() + ")"
			}
		case len(it.Parts) == 1 && it.Parts[0].One != nil:
			if isAux == 1 {
				return "an auxiliary item of " + want.String() + " is kept"
			}
			if isAux == -1 {
				return "auxiliary items of " + want.String() + " can be kept"
			}
			kept = true
			if asis {
				if it.Parts[0].One != l.Elem {
					return "an item of " + want.String() + " becomes " + it.Parts[0].One.String()
				}
			} else if why := p.match(it.St, it.Parts[0].One, l.Elem, et, false); why != "" {
				return why
			}
		default:
			return "an item of " + want.String() + " can be added more than once"
		}
	}
	if !kept {
		return "no item of " + want.String() + " is kept"
	}
	return ""
}

func (p *strip) matchMap(s *flow.State, got, want *flow.Term, u *types.Map) string {
	if got.IsNil() && (s.IsNil(want) == 1 || s.Decide(flow.Eq(flow.Len(want), flow.Int(0))) == 1) {
		return ""
	}
	if got.Op != "make" {
		return want.String() + " becomes " + got.String()
	}
	n := 0
	var key *flow.Term
	for _, m := range p.maps {
		if m.Base != got {
			continue
		}
		n++
		key = m.Idx
		src := flow.Sym("lookup", "", u.Elem(), want, m.Idx)
		if why := p.match(m.St, m.Val, src, u.Elem(), false); why != "" {
			return why
		}
	}
	if n == 0 {
		return want.String() + " is not carried over"
	}
	// every iteration must have stored, unless the value is nil
	for _, sum := range p.x.LoopSums {
		if sum.MapOver != want || sum.MapKey != key {
			continue
		}
		src := flow.Sym("lookup", "", u.Elem(), want, sum.MapKey)
		for _, e := range sum.Exits {
			if !e.Exhausted {
				return "not every partial of " + want.String() + " is considered"
			}
		}
		for _, it := range sum.Iters {
			if it.St.IsNil(src) == 1 {
				continue
			}
			found := false
			for _, m := range p.maps {
				if m.Base == got && it.St.Has("put", got, m.Idx) {
					found = true
				}
			}
			if !found {
				return "a partial of " + want.String() + " can be lost (" + it.St.Path() + ")"
			}
		}
		return ""
	}
	// keys listed first
	for _, sum := range p.x.LoopSums {
		if sum.Over == nil {
			continue
		}
		if flow.Elem(sum.Over, sum.Index, nil) == key {
			return ""
		}
	}
	return want.String() + " is not carried over completely"
}

func termStr(t *flow.Term) string {
	if t == nil {
		return "something else"
	}
	return t.String()
}
