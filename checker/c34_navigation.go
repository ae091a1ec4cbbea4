package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C34", Title: "Navigation between sections follows document order",
		Rule:  "Section.Top, Prev, Next, NextSibling, Contains and IsOrHasChild are summarised symbolically with their recursive calls and loops. Loop variables which remember the previous element, or whether it was the section, are rewritten to facts about the element before the current one. Every exit must be the value the definition gives under its facts, and the exits after a finished search must be excluded by no iteration: no iteration may go on when it saw what was searched for.",
		Trust: []string{"children are listed once, under their parent (decided by C29)"},
		Run:   runC34,
	})
}

// lag explains loop variables remembering the previous iteration by facts about
// the previous element.
type lag struct {
	vals  []lagVal
	flags map[*flow.Term]*flow.Term // variable -> condition on the previous element
}

type lagVal struct {
	v, init, prev, idx *flow.Term
	from               int64
}

// seqElem is the sequence a loop ranges over, from its element number from on.
func seqElem(x *flow.Exec, sum *flow.LoopSum) (over, elem, idx *flow.Term, from int64) {
	over, elem, idx = sumElem(x, sum)
	if over != nil {
		if sum.MapOver != nil {
			return nil, nil, nil, 0
		}
		return over, elem, idx, 0
	}
	if sum.Seq == nil || sum.Seq.Typ == nil {
		return nil, nil, nil, 0
	}
	sl, ok := sum.Seq.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, nil, 0
	}
	return sum.Seq, flow.Elem(sum.Seq, sum.At, sl.Elem()), sum.At, sum.From
}

func (ch *chain) lags(x *flow.Exec, sub *flow.Term) lag {
	l := lag{flags: map[*flow.Term]*flow.Term{}}
	for key, sum := range x.LoopSums {
		over, el, idx, from := seqElem(x, sum)
		if over == nil || idx == nil || len(sum.Iters) == 0 {
			continue
		}
		prev := flow.Elem(over, flow.Add(idx, flow.Int(-1)), el.Typ)
		match := flow.Eq(prev, sub)
		for t, r := range x.Rec {
			if x.SymLoop[t] != key || len(r.Init) != 1 {
				continue
			}
			isVal, isFlag := true, true
			for _, it := range sum.Iters {
				st := it.Steps[t]
				if st == nil {
					st = t
				}
				isVal = isVal && (st == el || it.St.Decide(flow.Eq(st, el)) == 1)
				b := it.St.Decide(st)
				if v, ok := st.IsBool(); ok {
					b = b2i(v)
				}
				switch b {
				case 1:
					isFlag = isFlag && it.St.Decide(flow.Eq(el, sub)) == 1
				case 0:
					isFlag = isFlag && it.St.Decide(flow.Eq(el, sub)) == 0
				default:
					isFlag = isFlag && st == flow.Eq(el, sub)
				}
			}
			for init := range r.Init {
				if isVal {
					l.vals = append(l.vals, lagVal{t, init, prev, idx, from})
				} else if isFlag && init == flow.Bool(false) {
					l.flags[t] = match
				}
			}
		}
	}
	return l
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// lagCase is a state with such variables explained.
type lagCase struct {
	st *flow.State
	m  map[*flow.Term]*flow.Term
}

func (c lagCase) term(t *flow.Term) *flow.Term {
	if len(c.m) == 0 {
		return t
	}
	return t.Subst(c.m)
}

// cases explains the variables in a state.
func (l lag) cases(s *flow.State) []lagCase {
	n := s.Clone()
	for t, m := range l.flags {
		if b := n.Decide(t); b != -1 {
			if !n.Assume(m, b == 1) {
				return nil
			}
		}
	}
	out := []lagCase{{n, map[*flow.Term]*flow.Term{}}}
	for _, v := range l.vals {
		next := []lagCase{}
		for _, c := range out {
			first := flow.Eq(v.idx, flow.Int(v.from))
			for k, f := range []*flow.Term{first, flow.Not(flow.Lt(v.idx, flow.Int(v.from+1)))} {
				ns := consistent(c.st, f)
				if ns == nil {
					continue
				}
				m := map[*flow.Term]*flow.Term{v.v: v.prev}
				if k == 0 {
					m[v.v] = v.init
				}
				if ns = ns.SubstState(m); ns == nil {
					continue
				}
				// children are never nil
				if k == 1 && !ns.Assume(flow.Not(flow.Eq(v.prev, flow.Nil())), true) {
					continue
				}
				mm := map[*flow.Term]*flow.Term{}
				for a, b := range c.m {
					mm[a] = b
				}
				mm[v.v] = m[v.v]
				next = append(next, lagCase{ns, mm})
			}
		}
		out = next
	}
	return out
}

func runC34(c *C) {
	ch := newChain(c)
	secN := c.P.named(mod, "Section")
	sec := flow.Sym("param", "section", ch.secT)
	sub := flow.Sym("param", "sub", ch.secT)
	p := ch.parent(sec)
	noP := flow.Eq(p, flow.Nil())
	kidsT := fieldTypeOf(secN, "Children")
	kids := func(s *flow.Term) *flow.Term { return flow.Field(s, "Children", kidsT) }
	elem := func(l, i *flow.Term) *flow.Term { return flow.Elem(l, i, ch.secT) }
	nav := map[*ssa.Function]string{}
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"Top", "Prev", "Next", "NextSibling", "Contains", "IsOrHasChild"} {
		f := c.meth(mod, "Section", n)
		nav[f] = n
		fns[n] = f
	}
	call := func(self string) func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		return func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == nil {
				return nil, false
			}
			if n := nav[ci.Callee]; n != "" {
				typ := ch.secT
				if n == "Contains" || n == "IsOrHasChild" {
					typ = types.Typ[types.Bool]
				}
				return one(s, flow.Sym("pure", n, typ, ci.Args...)), true
			}
			return nil, false
		}
	}
	pure := func(n string, args ...*flow.Term) *flow.Term {
		if n == "Contains" {
			return flow.Sym("pure", n, types.Typ[types.Bool], args...)
		}
		return flow.Sym("pure", n, ch.secT, args...)
	}
	run := func(n string, args ...*flow.Term) (*flow.Exec, []exitRec) {
		r := &flow.Rule{Call: call(n), Keep: loopSyms}
		throughLoops(r)
		return c.run(r, fns[n], args, nil)
	}
	bad := func(n string, e exitRec, f string, a ...any) {
		c.VP(n, e.Pos, e.St.Path(), n+" "+f, a...)
	}
	// searched: the search over parent's children is over without a hit
	searched := func(x *flow.Exec, e exitRec, lg lag, hit func(over, idx, el *flow.Term, from int64) [][]*flow.Term) bool {
		ok := false
		for key, sum := range x.LoopSums {
			over, el, idx, from := seqElem(x, sum)
			if over == nil || idx == nil {
				continue
			}
			if !e.St.Has("through:"+key) || e.St.Has("left:"+key) {
				continue
			}
			// any of the ways to search must be complete
			for _, alt := range hit(over, idx, el, from) {
				good := true
				for _, it := range sum.Iters {
					for _, lc := range lg.cases(it.St) {
						good = good && excluded(lc.st, alt)
					}
				}
				ok = ok || good
			}
		}
		return ok
	}
	// Top
	{
		x, exits := run("Top", sec)
		for _, e := range exits {
			c.Obl("outcomes")
			res := e.Res[0]
			switch {
			case res == sec:
				if !excluded(e.St, []*flow.Term{flow.Not(noP)}) {
					bad("Top", e, "can yield a section which has a parent")
				}
			case res == pure("Top", p):
			default:
				ok := false
				for _, cl := range ch.climbers(x) {
					st := e.St.SubstState(cl.subst)
					if cl.cur == res && cl.init == sec && (st == nil || excluded(st, []*flow.Term{flow.Not(flow.Eq(ch.parent(res), flow.Nil()))})) {
						ok = true
						for _, it := range x.LoopSums[cl.loop].Iters {
							if it.Steps[cl.cur] == nil || it.Steps[cl.cur] == cl.cur {
								ok = false
							}
						}
					}
				}
				if !ok {
					bad("Top", e, "yields %s, which is not shown to be the root", res)
				}
			}
		}
	}
	// Prev and NextSibling
	m1 := flow.Int(-1)
	for _, n := range []string{"Prev", "NextSibling"} {
		x, exits := run(n, sec)
		sec, p, noP := sec, p, noP
		if n == "NextSibling" {
			// going up in a loop: what it does for the section it has come to,
			// going on being the way up
			for _, cl := range ch.climbers(x) {
				if cl.init != sec {
					continue
				}
				sec, p = cl.cur, ch.parent(cl.cur)
				noP = flow.Eq(p, flow.Nil())
				for i := range exits {
					if st := exits[i].St.SubstState(cl.subst); st != nil {
						exits[i].St = st
					}
				}
				for _, it := range x.LoopSums[cl.loop].Iters {
					st := it.St.SubstState(cl.subst)
					if st == nil {
						continue
					}
					e := exitRec{St: st, Res: []*flow.Term{pure(n, p)}, Pos: fns[n].Pos()}
					if it.Steps[cl.cur] == nil || it.Steps[cl.cur] == cl.cur {
						bad(n, e, "can stay at a section for ever")
					}
					exits = append(exits, e)
				}
				break
			}
		}
		pk := kids(p)
		found := func(i *flow.Term) *flow.Term { return flow.Eq(elem(pk, i), sec) }
		lg := ch.lags(x, sec)
		nilExit, sibExit, upExit := false, false, false
		for _, e := range exits {
			c.Obl("outcomes")
			for _, lc := range lg.cases(e.St) {
				st := lc.st
				res := lc.term(e.Res[0])
				if nilChild(st, pk) { // children are never nil
					continue
				}
				if res.IsNil() || st.IsNil(res) == 1 {
					nilExit = true
					if !excluded(st, []*flow.Term{flow.Not(noP)}) {
						bad(n, e, "yields none for a section with a parent")
					}
					continue
				}
				up := p
				if n == "NextSibling" {
					up = pure("NextSibling", p)
				}
				if res == up || st.Decide(flow.Eq(res, up)) == 1 {
					upExit = true
					if !excluded(st, []*flow.Term{noP}) {
						bad(n, e, "goes on from a parent without checking that there is one")
					}
					ok := false
					// the section was found at the border
					for f, v := range st.Facts {
						if !v || f.Op != "eq" {
							continue
						}
						for k := 0; k < 2; k++ {
							a, b := f.Args[k], f.Args[1-k]
							if b != sec || a.Op != "elem" || a.Args[0] != pk {
								continue
							}
							i := a.Args[1]
							if n == "Prev" {
								ok = ok || isInt(i, 0) || excluded(st, []*flow.Term{flow.Not(flow.Lt(i, flow.Int(1)))})
							} else {
								ok = ok || excluded(st, []*flow.Term{flow.Lt(flow.Add(i, flow.Int(1)), flow.Len(pk))})
							}
						}
					}
					// or nowhere
					ok = ok || searched(x, e, lg, func(over, idx, el *flow.Term, from int64) [][]*flow.Term {
						alts := [][]*flow.Term{}
						later := flow.Not(flow.Lt(idx, flow.Int(1)))
						earlier := flow.Lt(flow.Add(idx, flow.Int(1)), flow.Len(pk))
						if n == "Prev" {
							if over == pk && from <= 1 {
								alts = append(alts, []*flow.Term{found(idx), later})
							}
							if isTail(over, pk) && from == 0 {
								alts = append(alts, []*flow.Term{flow.Eq(el, sec)})
							}
							// looking ahead: the next element is the section
							if (over == pk || isInitOf(over, pk)) && from == 0 {
								alts = append(alts, []*flow.Term{found(flow.Add(idx, flow.Int(1))), earlier})
							}
							return alts
						}
						if over == pk && from <= 1 {
							alts = append(alts, []*flow.Term{found(flow.Add(idx, m1)), later})
						}
						if isTail(over, pk) && from == 0 {
							alts = append(alts, []*flow.Term{found(idx)})
						}
						if (over == pk || isInitOf(over, pk)) && from == 0 {
							alts = append(alts, []*flow.Term{found(idx), earlier})
						}
						return alts
					})
					if n == "Prev" && !ok {
						bad(n, e, "yields the parent although the section may have a sibling before it")
					}
					if n == "NextSibling" && !ok {
						bad(n, e, "goes on from the parent although the section may have a sibling after it")
					}
					continue
				}
				// a sibling
				sibExit = true
				i := siblingIndex(res, pk)
				if i == nil {
					bad(n, e, "yields %s, which is not a sibling of the section", res)
					continue
				}
				at := flow.Add(i, flow.Int(1))
				if n == "NextSibling" {
					at = flow.Add(i, m1)
				}
				if !excluded(st, []*flow.Term{flow.Not(found(at))}) {
					bad(n, e, "yields %s, which is not shown to be the sibling %s the section", res, map[bool]string{true: "before", false: "after"}[n == "Prev"])
				}
			}
		}
		if !sibExit {
			c.V(n, fns[n].Pos(), "%s never yields a sibling", n)
		}
		if !nilExit {
			c.V(n, fns[n].Pos(), "%s never yields none", n)
		}
		if !upExit {
			c.V(n, fns[n].Pos(), "%s never goes up", n)
		}
	}
	// Next
	{
		_, exits := run("Next", sec)
		split := ch.boolField(sec, "SplitSections")
		own := kids(sec)
		empty := flow.Eq(flow.Len(own), flow.Int(0))
		sib, first := false, false
		for _, e := range exits {
			c.Obl("outcomes")
			res := e.Res[0]
			switch {
			case res == pure("NextSibling", sec):
				sib = true
				if !excluded(e.St, []*flow.Term{split, flow.Not(empty)}) {
					bad("Next", e, "can leave out the children of a section which splits")
				}
			case res == elem(own, flow.Int(0)):
				first = true
				if !excluded(e.St, []*flow.Term{flow.Not(split)}) {
					bad("Next", e, "can yield a child of a section which does not split")
				}
				if !excluded(e.St, []*flow.Term{empty}) {
					bad("Next", e, "takes the first child without checking that there is one")
				}
			default:
				bad("Next", e, "yields %s", res)
			}
		}
		if !sib || !first {
			c.V("Next", fns["Next"].Pos(), "Next never yields the %s", map[bool]string{true: "first child", false: "next sibling"}[sib])
		}
	}
	// Contains
	{
		x, exits := run("Contains", sec, sub)
		q := &existence{c: c, x: x, name: "Contains", base: flow.Eq(sec, sub), ways: []sought{{
			what: "what is within a child", over: kids(sec),
			hit: func(el *flow.Term) *flow.Term { return pure("Contains", el, sub) },
		}}}
		// going up from the other section
		q.moreTrue = func(s *flow.State) bool {
			for _, cl := range ch.climbers(x) {
				if cl.init == sub && s.Decide(flow.Eq(cl.cur, sec)) == 1 {
					return true
				}
			}
			return false
		}
		q.moreFalse = func(s *flow.State) bool {
			for _, cl := range ch.climbers(x) {
				if cl.init != sub || !excluded(s, []*flow.Term{flow.Not(flow.Eq(cl.cur, flow.Nil()))}) {
					continue
				}
				good := true
				for _, it := range x.LoopSums[cl.loop].Iters {
					good = good && excluded(it.St, []*flow.Term{flow.Eq(cl.cur, sec)})
				}
				if good {
					return true
				}
			}
			return false
		}
		for _, e := range exits {
			q.exit(e)
		}
	}
	// IsOrHasChild
	{
		x, exits := run("IsOrHasChild", sec, sub)
		q := &existence{c: c, x: x, name: "IsOrHasChild", base: flow.Eq(sec, sub), ways: []sought{{
			what: "a child", over: kids(sec),
			hit: func(el *flow.Term) *flow.Term { return flow.Eq(el, sub) },
		}}}
		// the other section's parent
		isKid := flow.Eq(ch.parent(sub), sec)
		q.moreTrue = func(s *flow.State) bool { return s.Decide(isKid) == 1 }
		q.moreFalse = func(s *flow.State) bool {
			// children are never nil
			return s.Decide(flow.Eq(sec, sub)) == 0 && (s.Decide(isKid) == 0 || s.IsNil(sub) == 1)
		}
		for _, e := range exits {
			q.exit(e)
		}
	}
	c.Need("outcomes", 10)
}

// nilChild: an element of the list is taken to be nil.
func nilChild(s *flow.State, list *flow.Term) bool {
	for f, v := range s.Facts {
		if v && f.Op == "eq" {
			for k := 0; k < 2; k++ {
				if f.Args[k].Op == "elem" && f.Args[k].Args[0] == list && f.Args[1-k].IsNil() {
					return true
				}
			}
		}
	}
	return false
}

// siblingIndex is the index of an element of a list.
func siblingIndex(t, list *flow.Term) *flow.Term {
	if t.Op == "elem" && t.Args[0] == list {
		return t.Args[1]
	}
	return nil
}

// isTail: all but the first elements.
func isTail(t, list *flow.Term) bool {
	return t.Op == "slice" && t.Args[0] == list && isInt(t.Args[1], 1) && len(t.Args) > 2 && (t.Args[2].IsNil() || t.Args[2] == flow.Len(list))
}

// isInitOf: all but the last elements.
func isInitOf(t, list *flow.Term) bool {
	return t.Op == "slice" && t.Args[0] == list && len(t.Args) > 2 && isInt(t.Args[1], 0) && t.Args[2] == flow.Add(flow.Len(list), flow.Int(-1))
}
