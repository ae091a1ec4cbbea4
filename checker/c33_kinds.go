package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C33", Title: "Every kind of content and syntax is visited as itself",
		Rule:  "All content and syntax types are found through the type system. On every path of a type's Visit method exactly one method of the visitor is called: the one whose parameter has that very type, with the value itself (types without a method of their own pass on to their content), and its result is returned. IsFlow is summarised for every content type and must be the constant, or function of its parts, of its kind.",
		Trust: []string{},
		Run:   runC33,
	})
}

func (c *C) methodOf(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(c.P.Pkgs[mod].Types, name)
	if sel == nil {
		return nil
	}
	return c.P.SSA.MethodValue(sel)
}

func runC33(c *C) {
	con := c.P.named(mod, "Content")
	conI := c.P.iface(mod, "Content")
	boolT := types.Typ[types.Bool]
	visitors := func(pkg string) map[string]string { // type -> method
		out := map[string]string{}
		i := c.P.iface(pkg, "Visitor")
		if i == nil {
			c.V("anchor:Visitor", token.NoPos, "there is no visitor of %s", short(pkg))
			panic(abort{})
		}
		for k := 0; k < i.NumMethods(); k++ {
			m := i.Method(k)
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() != 1 {
				continue
			}
			t := sig.Params().At(0).Type().String()
			if other, ok := out[t]; ok {
				// two methods for one type: the one named after it
				if other == "Visit"+typeName(sig.Params().At(0).Type()) {
					continue
				}
			}
			out[t] = m.Name()
		}
		return out
	}
	visit := func(pkg string, t types.Type, inner string) {
		fn := c.methodOf(t, "Visit")
		if fn == nil || len(fn.Blocks) == 0 {
			c.V("visit:"+typeName(t), token.NoPos, "%s cannot be visited", typeName(t))
			return
		}
		recv := flow.Sym("param", "value", t)
		vis := flow.Sym("param", "visitor", fn.Params[1].Type())
		method := visitors(pkg)[t.String()]
		r := &flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			pass := ""
			switch {
			case strings.HasPrefix(ci.Name, "invoke:("+pkg+".Visitor)."):
				pass = strings.TrimPrefix(ci.Name, "invoke:("+pkg+".Visitor).")
				if ci.Args[0] != vis {
					c.VP("visitor:"+typeName(t), ci.Pos, s.Path(), "%s calls another visitor", typeName(t))
				}
				if a := unwrap(ci.Args[1]); a != recv && !wholeOf(s, a, recv, t) {
					c.VP("value:"+typeName(t), ci.Pos, s.Path(), "%s is visited with %s instead of itself", typeName(t), ci.Args[1])
				}
			case ci.Name == "invoke:("+mod+".Content).Visit" || ci.Name == "invoke:("+mod+"/ast.Node).Visit":
				pass = "content"
				if ci.Args[1] != vis {
					c.VP("visitor:"+typeName(t), ci.Pos, s.Path(), "%s calls another visitor", typeName(t))
				}
				if ci.Args[0] != flow.Field(recv, inner, con) {
					pass = "other content"
				}
			default:
				return nil, false
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				o.St.AddSticky("visited", flow.StrConst(pass), o.Res)
				if len(o.St.Items("visited")) > 1 {
					c.VP("twice:"+typeName(t), ci.Pos, s.Path(), "%s is visited more than once", typeName(t))
				}
			}
			return outs, true
		}}
		x, exits := c.run(r, fn, []*flow.Term{recv, vis}, nil)
		want := method
		if want == "" {
			want = "content"
		}
		for _, e := range exits {
			c.Obl("visits")
			vs := e.St.Items("visited")
			if len(vs) != 1 {
				c.VP("visit:"+typeName(t), e.Pos, e.St.Path(), "%s can be left unvisited", typeName(t))
				continue
			}
			if got, _ := vs[0].Terms[0].IsStr(); got != want {
				c.VP("visit:"+typeName(t), e.Pos, e.St.Path(), "%s is visited by %s instead of %s", typeName(t), got, want)
			}
			if r := vs[0].Terms[1]; e.Res[0] != r && !(e.Res[0].IsNil() && e.St.IsNil(r) == 1) {
				c.VP("result:"+typeName(t), e.Pos, e.St.Path(), "visiting %s yields %s instead of the visitor's result", typeName(t), e.Res[0])
			}
		}
		for lk := range x.LoopSums {
			c.V("loop:"+typeName(t)+lk, fn.Pos(), "%s is visited within a loop", typeName(t))
		}
		if len(exits) == 0 {
			c.V("visit:"+typeName(t), fn.Pos(), "visiting %s never returns", typeName(t))
		}
		c.Sample("%s -> %s", typeName(t), want)
	}
	embedded := func(t types.Type) string {
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && types.Identical(st.Field(i).Type(), con) {
				return st.Field(i).Name()
			}
		}
		return ""
	}
	block := map[string]bool{"List": true, "Table": true, "Definitions": true, "Paragraph": true, "Preformatted": true, "Section": true, "TableOfContents": true}
	inline := map[string]bool{"String": true, "Reference": true, "Image": true, "Target": true}
	for _, t := range c.P.contentTypes() {
		visit(mod, t, embedded(t))
		fn := c.methodOf(t, "IsFlow")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		name := typeName(t)
		recv := flow.Sym("param", "value", t)
		isf := func(v *flow.Term) *flow.Term { return flow.Sym("pure", "isflow", boolT, unwrap(v)) }
		r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Name == "invoke:("+mod+".Content).IsFlow" {
				return one(s, isf(ci.Args[0])), true
			}
			if strings.Contains(ci.Name, "Force") || ci.Name == "dynamic" {
				c.VP("flow:"+name, ci.Pos, s.Path(), "whether %s is flow content depends on %s", name, ci.Name)
			}
			return nil, false
		}}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		x, exits := c.run(r, fn, []*flow.Term{recv}, nil)
		// want: the facts under which it is flow (all) / block (any)
		inner := ""
		st := structOf(t)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), con) && (st.Field(i).Name() == "Content") {
				inner = st.Field(i).Name()
			}
		}
		fieldB := func() *flow.Term { return flow.Field(recv, "Block", boolT) }
		decide := func(s *flow.State) int { // the specification in this state
			switch {
			case block[name]:
				return 0
			case inline[name]:
				return 1
			case name == "Lazy":
				return 1 - s.Decide(fieldB())
			case name == "Styled":
				if s.Decide(fieldB()) == 1 {
					return 0
				}
				if s.Decide(fieldB()) == 0 {
					return s.Decide(isf(flow.Field(recv, inner, con)))
				}
			case inner != "":
				return s.Decide(isf(flow.Field(recv, inner, con)))
			}
			return -1
		}
		known := block[name] || inline[name] || name == "Lazy" || name == "Styled" || inner != ""
		seq, isList := t.Underlying().(*types.Slice)
		isList = isList && !block[name] && types.Identical(seq.Elem().Underlying(), conI)
		if !known && !isList {
			continue
		}
		for _, e := range exits {
			c.Obl("kinds")
			for _, v := range []bool{true, false} {
				fact := e.Res[0]
				if b, ok := fact.IsBool(); ok {
					if b != v {
						continue
					}
					fact = flow.Bool(true)
				} else if !v {
					fact = flow.Not(fact)
				}
				s := consistent(e.St, fact)
				if s == nil {
					continue
				}
				ok := false
				if isList {
					ok = listFlow(x, s, recv, seq.Elem(), isf, v)
				} else {
					want := 0
					if v {
						want = 1
					}
					ok = decide(s) == want
				}
				if !ok {
					what := "block"
					if v {
						what = "flow"
					}
					c.VP("flow:"+name, e.Pos, s.Path(), "%s can be %s content when it should not be", name, what)
				}
			}
		}
		if len(exits) == 0 {
			c.V("flow:"+name, fn.Pos(), "IsFlow of %s never returns", name)
		}
	}
	// syntax
	nodeI := c.P.iface(mod+"/ast", "Node")
	sc := c.P.Pkgs[mod+"/ast"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), nodeI) {
			visit(mod+"/ast", tn.Type(), "")
		} else if types.Implements(types.NewPointer(tn.Type()), nodeI) {
			visit(mod+"/ast", types.NewPointer(tn.Type()), "")
		}
	}
	c.Need("visits", 20)
	c.Need("kinds", 15)
}

// wholeOf: the value at an address is the given one.
func wholeOf(s *flow.State, a, v *flow.Term, t types.Type) bool {
	return sameVal(s, a, v, t)
}

// listFlow: all elements are flow (v), or some element is not.
func listFlow(x *flow.Exec, s *flow.State, list *flow.Term, elem types.Type, isf func(*flow.Term) *flow.Term, v bool) bool {
	if s.Decide(flow.Eq(flow.Len(list), flow.Int(0))) == 1 {
		return v
	}
	for lk, sum := range x.LoopSums {
		over, el, _ := sumElem(x, sum)
		if over != list {
			continue
		}
		if !v {
			if s.Has("left:"+lk) && s.Decide(isf(el)) == 0 {
				return true
			}
			// a flag remembering it
			for f, rec := range x.Rec {
				if x.SymLoop[f] == lk && s.Decide(f) == 0 && flagAll(sum, f, rec, isf(el)) {
					return true
				}
			}
			continue
		}
		all := s.Has("through:"+lk) && !s.Has("left:"+lk) && len(sum.Iters) > 0
		for _, it := range sum.On(s) {
			all = all && it.St.Decide(isf(el)) == 1
		}
		if all {
			return true
		}
		for f, rec := range x.Rec {
			if x.SymLoop[f] == lk && s.Decide(f) == 1 && flagAll(sum, f, rec, isf(el)) && (s.Has("through:"+lk) || s.Decide(flow.Lt(sum.Index, flow.Len(list))) == 0) {
				return true
			}
		}
	}
	return false
}

// flagAll: the flag starts true and becomes false exactly if the fact fails for
// an element.
func flagAll(sum *flow.LoopSum, f *flow.Term, rec *flow.Recur, fact *flow.Term) bool {
	if f.Typ == nil || !isBool(f.Typ) || len(rec.Init) != 1 {
		return false
	}
	for i := range rec.Init {
		if v, ok := i.IsBool(); !ok || !v {
			return false
		}
	}
	for _, it := range sum.Iters {
		step := it.Steps[f]
		if step == nil {
			step = f
		}
		for _, old := range []bool{true, false} {
			for _, cur := range []bool{true, false} {
				fo, fc := f, fact
				if !old {
					fo = flow.Not(f)
				}
				if !cur {
					fc = flow.Not(fact)
				}
				s := consistent(it.St, fo, fc)
				if s == nil {
					continue
				}
				want := 0
				if old && cur {
					want = 1
				}
				if b, ok := step.IsBool(); ok {
					if b != (want == 1) {
						return false
					}
				} else if s.Decide(step) != want {
					return false
				}
			}
		}
	}
	return len(sum.Iters) > 0
}
