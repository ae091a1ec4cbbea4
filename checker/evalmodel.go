package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// evalModel models the evaluation of syntax nodes: visiting a node with an
// evaluator joins the content of the node to the evaluator's result.
type evalModel struct {
	c     *C
	typ   *types.Named // Evaluate
	ptr   types.Type
	res   string // result field
	sec   string // section field
	con   types.Type
	node  *types.Interface
	vis   *types.Interface
	appnd *ssa.Function
}

func newEvalModel(c *C) *evalModel {
	m := &evalModel{c: c, typ: c.P.named(mod+"/stages", "Evaluate"), con: c.P.named(mod, "Content"), node: c.P.iface(mod+"/ast", "Node"), vis: c.P.iface(mod+"/ast", "Visitor")}
	m.appnd = c.fnc(mod, "Append")
	if m.typ == nil || m.node == nil || m.vis == nil {
		c.V("anchor:Evaluate", 0, "the evaluating visitor no longer exists")
		panic(abort{})
	}
	m.ptr = types.NewPointer(m.typ)
	s := structOf(m.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), m.con) {
			m.res = f.Name()
		}
		if typeName(f.Type()) == "Section" {
			m.sec = f.Name()
		}
	}
	if m.res == "" || m.sec == "" {
		c.V("anchor:Evaluate.Result", m.typ.Obj().Pos(), "the evaluating visitor has no result or section")
		panic(abort{})
	}
	return m
}

func (m *evalModel) method(name string) *ssa.Function {
	return m.c.Anchor(m.c.P.visitorMethod(m.typ, name), "Evaluate."+name)
}

// join is the normal form of joined content.
func (m *evalModel) join(parts ...*flow.Term) *flow.Term {
	out := []*flow.Term{}
	var add func(t *flow.Term)
	add = func(t *flow.Term) {
		switch {
		case t.IsNil():
		case t.Op == "joined":
			for _, a := range t.Args {
				add(a)
			}
		default:
			out = append(out, t)
		}
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return flow.Nil()
	case 1:
		return out[0]
	}
	return flow.Sym("joined", "", m.con, out...)
}

// of is the content of a node.
func (m *evalModel) of(node *flow.Term) *flow.Term {
	return flow.Sym("evald", "", m.con, unwrap(node))
}

// visit recognises the evaluation of a node.
func (m *evalModel) visit(ci *flow.CallInfo) (node, visitor *flow.Term) {
	if ci.Name == "invoke:("+mod+"/ast.Node).Visit" && len(ci.Args) == 2 {
		return ci.Args[0], ci.Args[1]
	}
	f := ci.Callee
	if f == nil || f.Signature.Recv() == nil || len(ci.Args) != 2 {
		return nil, nil
	}
	rt := f.Signature.Recv().Type()
	if f.Name() == "Visit" && types.Implements(rt, m.node) {
		return ci.Args[0], ci.Args[1]
	}
	if types.Identical(rt, m.ptr) || types.Identical(rt, m.typ) {
		for i := 0; i < m.vis.NumMethods(); i++ {
			if m.vis.Method(i).Name() == f.Name() {
				return ci.Args[1], ci.Args[0]
			}
		}
	}
	return nil, nil
}

func (m *evalModel) resultAddr(v *flow.Term) *flow.Term {
	return flow.FieldAddr(unwrap(v), m.res, m.con)
}

// call models node visits and joins.
func (m *evalModel) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	if ci.Callee == m.appnd {
		a := ci.Args
		parts := []*flow.Term{a[0]}
		if len(a) > 1 && !a[1].IsNil() {
			if a[1].Op == "cat" {
				for _, p := range a[1].Args {
					if p.Op == "one" {
						parts = append(parts, p.Args[0])
					} else {
						parts = append(parts, flow.Sym("all", "", m.con, p.Args[0]))
					}
				}
			} else {
				parts = append(parts, flow.Sym("all", "", m.con, a[1]))
			}
		}
		return one(s, m.join(parts...)), true
	}
	node, v := m.visit(ci)
	if node == nil {
		return nil, false
	}
	outs := forkErr(x, s, ci)
	for _, o := range outs {
		e := o.Res
		ad := m.resultAddr(v)
		if o.St.IsNil(e) == 1 {
			old := o.St.Load(ad, m.con)
			o.St.StoreTo(ad, m.join(old, m.of(node)))
		} else {
			o.St.StoreTo(ad, flow.Sym("broken", "", m.con, e))
		}
	}
	return outs, true
}

// joinPieces explains joined content as parts.
func (m *evalModel) joinPieces(x *flow.Exec, s *flow.State, t *flow.Term, depth int) ([]piece, bool) {
	if depth > 6 {
		return nil, false
	}
	if t.IsNil() || s != nil && s.IsNil(t) == 1 {
		return nil, true
	}
	switch t.Op {
	case "joined":
		out := []piece{}
		for _, a := range t.Args {
			ps, ok := m.joinPieces(x, s, a, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return out, true
	case "all":
		return pieces(x, t.Args[0])
	case "loopphi", "mphi":
		rec := x.Rec[t]
		if rec == nil || len(rec.Init) != 1 {
			return []piece{{One: t}}, true
		}
		var out []piece
		for i := range rec.Init {
			ps, ok := m.joinPieces(x, s, i, depth+1)
			if !ok {
				return nil, false
			}
			out = ps
		}
		sum := x.LoopSums[x.SymLoop[t]]
		if sum == nil {
			return nil, false
		}
		ll := &loopList{Sum: sum, Sym: t, Loop: x.SymLoop[t]}
		ll.Over, ll.Elem, ll.Key = sumElem(x, sum)
		for _, it := range sum.Iters {
			step, ok := it.Steps[t]
			if !ok {
				step = t
			}
			li := loopIter{St: it.St}
			if step == t {
				li.Same = true
			} else {
				if step.Op != "joined" || step.Args[0] != t {
					return nil, false
				}
				ps, ok := m.joinPieces(x, it.St, m.join(step.Args[1:]...), depth+1)
				if !ok {
					return nil, false
				}
				li.Parts = ps
			}
			ll.It = append(ll.It, li)
		}
		return append(out, piece{Loop: ll}), true
	}
	return []piece{{One: t}}, true
}
