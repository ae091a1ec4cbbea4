package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// cover is the traversal-coverage analysis: which nested content of a value has
// been visited on the current path.
type cover struct {
	c      *C
	exempt map[string]string // Type.Field -> reason it holds no nested content
	ci     *types.Interface
	sec    *types.Named
}

func newCover(c *C, exempt map[string]string) *cover {
	return &cover{c: c, exempt: exempt, ci: c.P.iface(mod, "Content"), sec: c.P.named(mod, "Section")}
}

func (cv *cover) isContent(t types.Type) bool {
	return t != nil && (types.Identical(t.Underlying(), cv.ci) || types.Implements(t, cv.ci))
}

// bearing reports whether values of the type can hold nested content.
func (cv *cover) bearing(t types.Type) bool { return cv.bearing1(t, map[types.Type]bool{}) }

func (cv *cover) bearing1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if types.Identical(t.Underlying(), cv.ci) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return cv.bearing1(u.Elem(), seen)
	case *types.Array:
		return cv.bearing1(u.Elem(), seen)
	case *types.Map:
		return cv.bearing1(u.Elem(), seen)
	case *types.Pointer:
		return types.Identical(u.Elem(), cv.sec)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := cv.exempt[typeName(t)+"."+u.Field(i).Name()]; ok {
				continue
			}
			if cv.bearing1(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// nested lists the paths of nested content directly inside a type, as text.
func (cv *cover) nested(t types.Type) []string {
	out := []string{}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := cv.exempt[typeName(t)+"."+f.Name()]; ok {
				continue
			}
			if cv.bearing(f.Type()) {
				out = append(out, f.Name())
			}
		}
	case *types.Slice, *types.Map:
		if cv.bearing(t) {
			out = append(out, "[]")
		}
	}
	return out
}

func unwrap(t *flow.Term) *flow.Term {
	for t.Op == "iface" || t.Op == "ta" {
		t = t.Args[0]
	}
	return t
}

func (cv *cover) seen(st *flow.State, t *flow.Term) { st.Add("seen", unwrap(t)) }

// covered decides whether all nested content of the value was visited.
func (cv *cover) covered(st *flow.State, t *flow.Term, typ types.Type) (bool, string) {
	t = unwrap(t)
	if st.Has("seen", t) {
		return true, ""
	}
	if t.IsNil() || t.Op == "zero" {
		return true, ""
	}
	switch u := typ.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		if st.IsNil(t) == 1 {
			return true, ""
		}
		return false, t.String()
	case *types.Slice:
		if st.Has("all", t) || st.IsNil(t) == 1 || st.Decide(flow.Eq(flow.Len(t), flow.Int(0))) == 1 {
			return true, ""
		}
		if t.Op == "cat" {
			for _, p := range t.Args {
				if p.Op == "one" {
					if ok, m := cv.covered(st, p.Args[0], u.Elem()); !ok {
						return false, m
					}
				} else if ok, m := cv.covered(st, p.Args[0], typ); !ok {
					return false, m
				}
			}
			return true, ""
		}
		return false, t.String() + "[…]"
	case *types.Map:
		if st.Has("all", t) || st.IsNil(t) == 1 || st.Decide(flow.Eq(flow.Len(t), flow.Int(0))) == 1 {
			return true, ""
		}
		return false, t.String() + "[…]"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := cv.exempt[typeName(typ)+"."+f.Name()]; ok || !cv.bearing(f.Type()) {
				continue
			}
			if ok, m := cv.covered(st, flow.Field(t, f.Name(), f.Type()), f.Type()); !ok {
				return false, m
			}
		}
		return true, ""
	}
	return true, ""
}

// addsKey: a step of a list adds the key of a map to it.
func addsKey(step, list, key *flow.Term) bool {
	return step.Op == "cat" && len(step.Args) == 2 && step.Args[0].Op == "spread" && step.Args[0].Args[0] == list && step.Args[1].Op == "one" && step.Args[1].Args[0] == key
}

// presentKeys: the list only has keys of m for which m holds something.
func presentKeys(x *flow.Exec, list, m *flow.Term) bool {
	sum := x.LoopSums[x.SymLoop[list]]
	rec := x.Rec[list]
	if sum == nil || rec == nil || sum.MapOver != m || len(sum.Iters) == 0 {
		return false
	}
	for i := range rec.Init {
		if !emptyList(i) {
			return false
		}
	}
	_, el, key := sumElem(x, sum)
	for _, it := range sum.Iters {
		n := it.Steps[list]
		if n == nil || n == list {
			continue
		}
		if !addsKey(n, list, key) || el == nil || it.St.IsNil(el) != 0 {
			return false
		}
	}
	return true
}

// keysOf finds the map whose keys a list holds (collected, possibly sorted).
func keysOf(x *flow.Exec, st *flow.State, l *flow.Term) *flow.Term {
	if it := st.Items("keys"); len(it) > 0 {
		for _, i := range it {
			if i.Terms[0] == l {
				return i.Terms[1]
			}
		}
	}
	n := flow.CallName(l)
	switch {
	case strings.HasPrefix(n, "slices.Sorted"), strings.HasPrefix(n, "slices.Collect"):
		return keysOf(x, st, l.Args[0])
	case strings.HasPrefix(n, "maps.Keys"):
		return l.Args[0]
	}
	return nil
}

// elemOf is the element a loop iteration handles, with its type.
func loopElem(x *flow.Exec, st *flow.State, l *flow.Loop) (coll, e *flow.Term, et types.Type) {
	if l.MapOver != nil {
		m, ok := l.MapOver.Typ.Underlying().(*types.Map)
		if !ok {
			return nil, nil, nil
		}
		return l.MapOver, flow.Sym("lookup", "", m.Elem(), l.MapOver, l.MapKey), m.Elem()
	}
	if l.Over == nil || l.Over.Typ == nil {
		return nil, nil, nil
	}
	s, ok := l.Over.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, nil
	}
	if l.Index.Op == "restidx" {
		return l.Over, flow.Elem(l.Index.Args[0], flow.Int(0), s.Elem()), s.Elem()
	}
	e = flow.Elem(l.Over, l.Index, s.Elem())
	if m := keysOf(x, st, l.Over); m != nil {
		mt, ok := m.Typ.Underlying().(*types.Map)
		if ok {
			return m, flow.Sym("lookup", "", mt.Elem(), m, e), mt.Elem()
		}
	}
	return l.Over, e, s.Elem()
}

// hooks installs the loop hooks of the coverage analysis.
func (cv *cover) hooks(r *flow.Rule) {
	r.BackEdge = func(x *flow.Exec, st *flow.State, l *flow.Loop) {
		coll, e, et := loopElem(x, st, l)
		if coll == nil {
			return
		}
		if ok, m := cv.covered(st, e, et); !ok {
			st.Add("miss:"+l.Key, coll)
			_ = m
		}
	}
	r.LoopExit = func(x *flow.Exec, st *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
		if !exhausted {
			return
		}
		coll, _, _ := loopElem(x, st, l)
		if l.MapOver != nil {
			// lists that collected every key
			for p, rec := range x.Rec {
				if x.SymLoop[p] != l.Key || len(rec.Steps) == 0 {
					continue
				}
				ok := true
				for s := range rec.Steps {
					ok = ok && (s == p || addsKey(s, p, l.MapKey))
				}
				if sum := x.LoopSums[l.Key]; ok && sum != nil && rec.Steps[p] {
					// some keys are left out: those without anything
					_, el, _ := sumElem(x, sum)
					ok = el != nil
					for _, it := range sum.Iters {
						n := it.Steps[p]
						ok = ok && (n != nil && n != p || it.St.IsNil(el) == 1)
					}
				}
				if ok {
					st.Add("keys", p, l.MapOver)
				}
			}
		}
		if coll != nil && !st.Has("miss:"+l.Key, coll) {
			st.Add("all", coll)
		}
	}
}

// visitCall recognises content.Visit(visitor) or visitor.VisitX(content).
func (cv *cover) visitCall(c *flow.CallInfo) (content, visitor *flow.Term) {
	if c.Name == "invoke:("+mod+".Content).Visit" || c.Name == "invoke:("+mod+".Visitor).Visit" {
		return c.Args[0], c.Args[1]
	}
	if c.Callee != nil && c.Callee.Signature.Recv() != nil && c.Callee.Name() == "Visit" && len(c.Args) == 2 && cv.isContent(c.Callee.Signature.Recv().Type()) {
		return c.Args[0], c.Args[1]
	}
	if strings.HasPrefix(c.Name, "invoke:("+mod+".Visitor).Visit") && len(c.Args) == 2 {
		return c.Args[1], c.Args[0]
	}
	if c.Callee != nil && c.Callee.Signature.Recv() != nil && strings.HasPrefix(c.Callee.Name(), "Visit") && len(c.Args) == 2 {
		vi := cv.c.P.iface(mod, "Visitor")
		rt := c.Callee.Signature.Recv().Type()
		if vi != nil && (types.Implements(rt, vi) || types.Implements(types.NewPointer(rt), vi)) {
			return c.Args[1], c.Args[0]
		}
	}
	return nil, nil
}

// errPath: the last result is a definite error.
func errPath(st *flow.State, res []*flow.Term) bool {
	return len(res) > 0 && st.IsNil(res[len(res)-1]) == 0
}

// forkErr returns two outcomes for a call with an error result: nil and non-nil.
func forkErr(x *flow.Exec, st *flow.State, c *flow.CallInfo) []flow.Outcome {
	r := x.OpaqueResult(st, c)
	st2 := st.Clone()
	outs := []flow.Outcome{}
	e := r
	if t, ok := c.Result.(*types.Tuple); ok && t.Len() > 1 {
		e = flow.Sym("result", itoa(t.Len()-1), t.At(t.Len()-1).Type(), r)
	}
	if st.Assume(flow.Eq(e, flow.Nil()), true) {
		outs = append(outs, flow.Outcome{St: st, Res: r})
	}
	if st2.Assume(flow.Eq(e, flow.Nil()), false) {
		outs = append(outs, flow.Outcome{St: st2, Res: r})
	}
	return outs
}

func itoa(i int) string { return string(rune('0' + i)) }

// visitorImpls lists types implementing Visitor in a package.
func (p *Prog) visitorMethod(t types.Type, name string) *ssa.Function {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}
