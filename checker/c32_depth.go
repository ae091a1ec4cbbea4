package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C32", Title: "Headings are numbered and nested consistently within a page",
		Rule:  "Section.Depth and Section.PageDepth are verified by induction over the parents, as recursion or loop: zero exactly in the base case (no parent; for the page depth also a parent which restarts depth), one more than the parent's depth otherwise. The heading level given to templates is summarised over an arbitrary page depth d >= 0 and must be d+1 for d <= 5 and 6 above. The built-in section template opens and closes its heading with that level.",
		Trust: []string{"the parents of a section form a finite chain (decided by C29)"},
		Run:   runC32,
	})
}

// counts verifies that a function of a section yields the number of steps up
// to a base case.
func (ch *chain) counts(f *ssa.Function, what string, base [][]*flow.Term, notBase []*flow.Term, sec *flow.Term, peer map[*ssa.Function]func(a *flow.Term) *flow.Term) {
	c := ch.c
	again := func(a *flow.Term) *flow.Term { return flow.Sym("pure", "count", types.Typ[types.Int], a) }
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == f {
			return one(s, again(ci.Args[0])), true
		}
		return nil, false
	}}
	x, exits := c.run(r, f, []*flow.Term{sec}, nil)
	if len(exits) == 0 {
		c.V(what, f.Pos(), "%s never returns", what)
	}
	for _, e := range exits {
		if e.St.IsNil(sec) == 1 {
			continue // no section at all
		}
		c.Obl("outcomes")
		res := e.Res[0]
		switch {
		case isInt(res, 0):
			if !excluded(e.St, notBase) {
				c.VP(what, e.Pos, e.St.Path(), "%s can be 0 for a section which has a parent to count", what)
			}
			continue
		case res == flow.Add(again(ch.parent(sec)), flow.Int(1)):
			if !excluded(e.St, base...) {
				c.VP(what, e.Pos, e.St.Path(), "%s counts further although %s must be 0 there", what, what)
			}
			continue
		}
		if n, ok := res.IsInt(); ok {
			c.VP(what, e.Pos, e.St.Path(), "%s is the constant %d", what, n)
			continue
		}
		if why := ch.countLoop(x, e, res, sec, base, notBase); why != "" {
			c.VP(what, e.Pos, e.St.Path(), "%s yields %s, which is not shown to be the number of parents counted (%s)", what, res, why)
		}
	}
	c.Sample("%s: %d exits", what, len(exits))
}

// countLoop: the result counts the iterations of a loop climbing from sec.
func (ch *chain) countLoop(x *flow.Exec, e exitRec, res, sec *flow.Term, base [][]*flow.Term, notBase []*flow.Term) string {
	r := x.Rec[res]
	if r == nil || len(r.Init) != 1 || !r.Init[flow.Int(0)] || len(r.Steps) != 1 || !r.Steps[flow.Add(res, flow.Int(1))] {
		return "it does not count from 0 in steps of 1"
	}
	key := x.SymLoop[res]
	why := "nothing follows the parents at the same time"
	for _, cl := range ch.climbers(x) {
		if cl.loop != key {
			continue
		}
		m := map[*flow.Term]*flow.Term{}
		for k, v := range cl.subst {
			m[k] = v
		}
		cur := cl.cur
		if cl.init == ch.parent(sec) {
			// one parent ahead
			cur = flow.Sym("param", "below", ch.secT)
			m[cl.cur] = ch.parent(cur)
		} else if cl.init != sec {
			continue
		}
		sub := func(s *flow.State) *flow.State {
			if len(m) == 0 {
				return s
			}
			return s.SubstState(m)
		}
		facts := func(fs []*flow.Term) []*flow.Term {
			out := []*flow.Term{}
			for _, f := range fs {
				out = append(out, f.Subst(map[*flow.Term]*flow.Term{sec: cur}))
			}
			return out
		}
		why = ""
		if st := sub(e.St); st != nil && !excluded(st, facts(notBase)) {
			why = "the loop can stop early"
		}
		sum := x.LoopSums[key]
		for _, it := range sum.Iters {
			st := sub(it.St)
			if st == nil {
				continue
			}
			var bs [][]*flow.Term
			for _, b := range base {
				bs = append(bs, facts(b))
			}
			if !excluded(st, bs...) {
				why = "the loop can go too far"
			}
			next := it.Steps[cl.cur]
			if next == nil || next == cl.cur {
				why = "a parent is counted twice"
			}
		}
		if why == "" {
			return ""
		}
	}
	return why
}

func runC32(c *C) {
	ch := newChain(c)
	depth := c.meth(mod, "Section", "Depth")
	page := c.meth(mod, "Section", "PageDepth")
	sec := flow.Sym("param", "section", ch.secT)
	p := ch.parent(sec)
	noP := flow.Eq(p, flow.Nil())
	ch.counts(depth, "the depth", [][]*flow.Term{{noP}}, []*flow.Term{flow.Not(noP)}, sec, nil)
	reset := ch.boolField(p, "ResetDepth")
	ch.counts(page, "the depth within the page", [][]*flow.Term{{noP}, {flow.Not(noP), reset}}, []*flow.Term{flow.Not(noP), flow.Not(reset)}, sec, nil)

	// the heading level
	n := 0
	for _, fe := range c.templateFuncs(renderPkg) {
		if fe.Name != "headerDepth" {
			continue
		}
		n++
		d := flow.Sym("pure", "pagedepth", types.Typ[types.Int], sec)
		r := &flow.Rule{Keep: func(t *flow.Term) bool { return t == d }, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == page {
				if len(ci.Args) == 1 && ci.Args[0] == sec {
					s.Assume(flow.Not(flow.Lt(d, flow.Int(0))), true)
					return one(s, d), true
				}
			}
			return nil, false
		}}
		_, exits := c.run(r, fe.Fn, []*flow.Term{sec}, nil)
		if len(exits) == 0 {
			c.V("level", fe.Pos, "the heading level is never known")
		}
		for _, e := range exits {
			res := e.Res[0]
			for k := int64(0); k <= 7; k++ {
				f := flow.Eq(d, flow.Int(k))
				lbl := itoa(int(k))
				if k == 7 {
					f = flow.Not(flow.Lt(d, flow.Int(7)))
					lbl = "7 or more"
				}
				s := consistent(e.St, f)
				if s == nil {
					continue
				}
				c.Obl("heading levels")
				want := k + 1
				if want > 6 {
					want = 6
				}
				if isInt(res, want) || s.Decide(flow.Eq(res, flow.Int(want))) == 1 {
					continue
				}
				if k < 7 && isInt(res.Subst(map[*flow.Term]*flow.Term{d: flow.Int(k)}), want) {
					continue
				}
				c.VP("level", e.Pos, e.St.Path(), "the heading level at depth %s is %s instead of %d", lbl, res, want)
			}
		}
	}
	if n == 0 {
		c.V("level", token.NoPos, "templates are no longer given headerDepth")
	}
	ts := c.templates(renderPkg + "/html")
	w := c.events(renderPkg+"/html", "section.tmpl", ts)
	open, closed := 0, 0
	for _, e := range w.events {
		if e.Expr != "headerDepth($)" || len(e.Conds) > 0 {
			continue
		}
		if strings.HasSuffix(e.Before, "<h") {
			open++
		}
		if strings.HasSuffix(e.Before, "</h") {
			closed++
		}
	}
	c.Obl("headings in section templates")
	if open != 1 || closed != 1 {
		c.V("template", token.NoPos, "render/html/section.tmpl does not surround the title with a heading of the section's level")
	}
	c.Need("outcomes", 2)
	c.Need("heading levels", 7)
}
