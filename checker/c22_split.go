package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C22", Title: "A single-page section never splits, whatever its children ask for",
		Rule:  "SplitSectionsPrevented is verified by induction to hold exactly if the section or one above it prevents splitting. The split-sections function is summarised: on every exit the depth restarts, and the section splits afterwards exactly if nothing prevents it (or it split before). The single-page function must mark its section and clear the split of it and, through functions verified by induction over the children, of everything below. No other code sets or clears these options.",
		Trust: []string{"children are evaluated with their parent set (decided by C29)"},
		Run:   runC22,
	})
}

func runC22(c *C) {
	b := newBasePlugin(c)
	ch := b.ch
	prevented := c.meth(mod, "Section", "SplitSectionsPrevented")
	if !ch.exists(prevented, func(cur *flow.Term, args []*flow.Term) *flow.Term { return ch.boolField(cur, "PreventSplitSections") }) {
		c.V("prevented", prevented.Pos(), "SplitSectionsPrevented is not shown to hold exactly if the section or one of its parents prevents splitting")
	}
	c.Obl("predicates")
	prev := func(s *flow.Term) *flow.Term { return flow.Sym("pure", "prevented", ch.boolField(s, "x").Typ, s) }
	// split-sections
	{
		fn, args, sec := b.method("SplitSections")
		r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == prevented {
				return one(s, prev(ci.Args[0])), true
			}
			return nil, false
		}}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base != sec || field != "SplitSections" && field != "ResetDepth" {
				c.VP("split:store", instr.Pos(), s.Path(), "split-sections sets %s of %s", field, base)
			}
		})
		_, exits := c.run(r, fn, args, nil)
		for _, e := range exits {
			c.Obl("outcomes of split-sections")
			get := func(f string) *flow.Term { return e.St.LoadField(sec, f, ch.boolField(sec, f).Typ) }
			if e.St.Decide(get("ResetDepth")) != 1 {
				c.VP("split:depth", e.Pos, e.St.Path(), "split-sections does not restart the depth")
			}
			v := get("SplitSections")
			old := ch.boolField(sec, "SplitSections")
			if s := consistent(e.St, prev(sec), flow.Not(old), v); s != nil {
				c.VP("split:prevented", e.Pos, e.St.Path(), "split-sections splits although splitting is prevented")
			}
			if s := consistent(e.St, flow.Not(prev(sec)), flow.Not(v)); s != nil {
				c.VP("split:ignored", e.Pos, e.St.Path(), "split-sections does not split although nothing prevents it")
			}
		}
		if len(exits) == 0 {
			c.V("split", fn.Pos(), "split-sections never succeeds")
		}
	}
	// single-page
	rec := c.P.recursive()
	type key struct {
		fn   *ssa.Function
		args []*flow.Term
		subj *flow.Term
	}
	keys := map[*ssa.Function]*key{}
	todo := []*key{}
	start, args, sec := b.method("SinglePage")
	todo = append(todo, &key{start, args, sec})
	kidsT := fieldTypeOf(b.secN, "Children")
	for n := 0; n < len(todo); n++ {
		k := todo[n]
		r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			f := ci.Callee
			if f == nil || !rec[f] || !x.InModule(f) {
				return nil, false
			}
			nk := &key{fn: f}
			for i, a := range ci.Args {
				if nk.subj == nil && ch.isSec(f.Params[i].Type()) {
					nk.subj = flow.Sym("param", "section"+itoa(i), ch.secT)
					nk.args = append(nk.args, nk.subj)
					s.Add("cleared", a)
				} else {
					nk.args = append(nk.args, a)
				}
			}
			if nk.subj == nil || f.Signature.Results().Len() > 0 {
				return nil, false
			}
			if keys[f] == nil {
				keys[f] = nk
				todo = append(todo, nk)
			}
			return one(s, flow.Nil()), true
		}}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		x, exits := c.run(r, k.fn, k.args, nil)
		if len(exits) == 0 {
			c.V("single:"+k.fn.Name(), k.fn.Pos(), "%s never returns", k.fn.Name())
		}
		for _, e := range exits {
			c.Obl("outcomes of single-page")
			get := func(f string) *flow.Term { return e.St.LoadField(k.subj, f, ch.boolField(sec, f).Typ) }
			if n == 0 && e.St.Decide(get("PreventSplitSections")) != 1 {
				c.VP("single:mark", e.Pos, e.St.Path(), "single-page does not prevent splitting of its section")
			}
			if e.St.Has("cleared", k.subj) {
				continue
			}
			if e.St.Decide(get("SplitSections")) != 0 {
				c.VP("single:self:"+k.fn.Name(), e.Pos, e.St.Path(), "%s does not clear an earlier split of the section itself", k.fn.Name())
			}
			kids := flow.Field(k.subj, "Children", kidsT)
			ok := e.St.Decide(flow.Eq(flow.Len(kids), flow.Int(0))) == 1
			for lk, sum := range x.LoopSums {
				over, el, _ := sumElem(x, sum)
				if over != kids || !e.St.Has("through:"+lk) || e.St.Has("left:"+lk) {
					continue
				}
				all := true
				for _, it := range sum.On(e.St) {
					all = all && it.St.Has("cleared", el)
				}
				ok = ok || all
			}
			if !ok {
				c.VP("single:below:"+k.fn.Name(), e.Pos, e.St.Path(), "%s does not clear earlier splits of every section below", k.fn.Name())
			}
		}
	}
	// nobody else
	splitFns := c.P.reach(c.meth(basePkg, "Plugin", "SplitSections"))
	singleFns := c.P.reach(start)
	for _, f := range []string{"SplitSections", "PreventSplitSections", "ResetDepth"} {
		for _, st := range c.fieldStores(b.secN, f) {
			c.Obl("stores of split options")
			on, known := constBool(st.Instr.Val)
			switch {
			case !c.P.live()[st.Fn]:
			case f == "SplitSections" && (splitFns[st.Fn] || known && !on && singleFns[st.Fn]):
			case f == "ResetDepth" && splitFns[st.Fn]:
			case f == "PreventSplitSections" && known && on:
			case known && !on && st.Fresh:
			default:
				c.V("store:"+f+":"+st.Fn.Name(), st.Instr.Pos(), "%s sets %s of a section outside of the functions which decide it", short(st.Fn.String()), f)
			}
		}
	}
	c.Need("outcomes of split-sections", 1)
	c.Need("outcomes of single-page", 1)
}

func constBool(v ssa.Value) (val, known bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && isBool(k.Type()) {
		return k.Value.ExactString() == "true", true
	}
	return false, false
}
