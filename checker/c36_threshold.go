package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// durationField is the only duration in a struct of the module.
func durationField(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), mod) {
		return ""
	}
	st := structOf(n)
	out := ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "time.Duration" {
			if out != "" {
				return ""
			}
			out = st.Field(i).Name()
		}
	}
	return out
}

// threshold: the threshold for slow calls is handed on wherever a document is
// evaluated, and governs a warning around every call.
func (c *C) threshold() {
	live := c.P.live()
	for _, pk := range c.P.scope() {
		for _, f := range c.P.funcsIn(pk) {
			if !live[f] || f.Parent() != nil || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
				continue
			}
			src := durationField(f.Params[0].Type())
			if src == "" || !makesTimed(f, map[*ssa.Function]bool{}) {
				continue
			}
			c.handsOn(f, src)
		}
	}
	c.Need("thresholds handed on", 2)
	c.warns()
}

// makesTimed: the function, or one it calls in its package, makes something
// with a duration.
func makesTimed(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Alloc:
				if durationField(i.Type()) != "" && !isParam(i) {
					return true
				}
			case ssa.CallInstruction:
				g := i.Common().StaticCallee()
				if g != nil && g.Pkg == f.Pkg && (g.Signature.Recv() == nil || durationField(g.Params[0].Type()) == "") && makesTimed(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// isParam: a variable that holds a parameter.
func isParam(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			if _, ok := st.Val.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

func (c *C) handsOn(f *ssa.Function, src string) {
	args := c.params(f)
	dur := fieldTypeOf(f.Params[0].Type(), src)
	want := flow.Field(args[0], src, dur)
	handed := func(s *flow.State, t *flow.Term, what string, bad func(f string, a ...any)) {
		v := unwrap(t)
		if v.Op != "alloc" || v.Typ == nil {
			return
		}
		typ := v.Typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		d := durationField(typ)
		if d == "" {
			return
		}
		c.Obl("thresholds handed on")
		if got := s.LoadField(v, d, dur); got != want && s.Decide(flow.Eq(got, want)) != 1 {
			bad("%s %s %s with the threshold %s instead of its own", f.Name(), what, typeName(typ), got)
		}
	}
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Method != nil {
			for _, a := range ci.Args {
				handed(s, a, "uses", func(m string, a ...any) { c.VP("threshold:"+f.Name(), ci.Pos, s.Path(), m, a...) })
			}
		}
		return nil, false
	}
	_, exits := c.run(r, f, args, nil)
	for _, e := range exits {
		for _, t := range e.Res {
			handed(e.St, t, "yields", func(m string, a ...any) { c.VP("threshold:"+f.Name(), e.Pos, e.St.Path(), m, a...) })
		}
	}
}

// warns: calls are timed exactly if there is a threshold, by it.
func (c *C) warns() {
	m := newEvalModel(c)
	f := m.method("VisitInvoke")
	args := c.params(f)
	src := durationField(m.typ)
	if src == "" {
		c.V("threshold:none", f.Pos(), "evaluation no longer knows the threshold for slow calls")
		return
	}
	dur := fieldTypeOf(m.typ, src)
	thr := flow.Field(args[0], src, dur)
	on := flow.Lt(flow.Int(0), thr)
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		timer := false
		switch {
		case strings.HasPrefix(ci.Name, "time.") || strings.HasPrefix(ci.Name, "context."):
			for _, a := range ci.Args {
				if a.Typ != nil && a.Typ.String() == "time.Duration" || a == thr {
					timer = true
					c.Obl("timers")
					if a != thr && s.Decide(flow.Eq(a, thr)) != 1 {
						c.VP("threshold:timer", ci.Pos, s.Path(), "a call is timed with %s instead of the threshold", a)
					}
				}
			}
			if timer {
				if !excluded(s, []*flow.Term{flow.Not(on)}) {
					c.VP("threshold:timer", ci.Pos, s.Path(), "a call can be timed without a threshold")
				}
				s.AddSticky("timed")
			}
		case ci.Name == "(*time.Timer).Stop":
			s.AddSticky("stopped")
		case ci.Name == "(reflect.Value).Call" || ci.Name == "(reflect.Value).CallSlice":
			c.Obl("timed calls")
			if !s.Has("timed") && !excluded(s, []*flow.Term{on}) {
				c.VP("threshold:call", ci.Pos, s.Path(), "a function can be called untimed although there is a threshold")
			}
			if s.Has("stopped") {
				c.VP("threshold:call", ci.Pos, s.Path(), "the timer is stopped before the function is called")
			}
			s.AddSticky("called")
		}
		return nil, false
	}
	_, exits := c.run(r, f, args, nil)
	for _, e := range exits {
		if e.St.Has("timed") && !e.St.Has("stopped") {
			c.VP("threshold:stop", e.Pos, e.St.Path(), "the timer of a call can go on after it")
		}
	}
	c.Need("timed calls", 1)
	c.Need("timers", 1)
}
