package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// run analyses fn and returns its normal exits (of the deciding pass).
func (c *C) run(r *flow.Rule, fn *ssa.Function, args []*flow.Term, setup func(*flow.State)) (*flow.Exec, []exitRec) {
	if r == nil {
		r = &flow.Rule{}
	}
	user := r.Return
	r.Return = func(x *flow.Exec, s *flow.State, res []*flow.Term, pos token.Pos) {
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		// an error left over by a loop: whether it is one decides which
		// iterations there were
		if n := len(res); n > 0 && loopSyms(res[n-1]) && isErrType(res[n-1].Typ) && s.IsNil(res[n-1]) < 0 {
			for _, v := range []bool{true, false} {
				if o := s.Clone(); o.Assume(flow.Eq(res[n-1], flow.Nil()), v) {
					c.exits = append(c.exits, exitRec{o, res, pos})
				}
			}
		} else {
			c.exits = append(c.exits, exitRec{s, res, pos})
		}
		if user != nil {
			user(x, s, res, pos)
		}
	}
	x := c.exec(r)
	c.exits = nil
	x.Run(fn, args, setup)
	c.done(x)
	ex := c.exits
	c.exits = nil
	return x, ex
}

// consistent assumes facts on a copy; nil if infeasible.
func consistent(s *flow.State, facts ...*flow.Term) *flow.State {
	n := s.Clone()
	for _, f := range facts {
		if !n.Assume(f, true) {
			return nil
		}
	}
	return n
}

// structOf is the struct type of a (pointer to a) named type.
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldTypeOf(t types.Type, name string) types.Type {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// get reads field f of the struct value t, through memory if it is an address
// or a pointer.
func get(s *flow.State, t *flow.Term, f string, typ types.Type) *flow.Term {
	t = unwrap(t)
	switch t.Op {
	case "alloc", "fa", "ia":
		return s.LoadField(t, f, typ)
	}
	if t.Typ != nil {
		if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return s.LoadField(t, f, typ)
		}
	}
	return flow.Field(t, f, typ)
}

// sameVal compares values, field by field for structs.
func sameVal(s *flow.State, a, b *flow.Term, typ types.Type) bool {
	if a == b {
		return true
	}
	if (a.IsNil() || b.IsNil()) && s.Decide(flow.Eq(a, b)) == 1 {
		return true
	}
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !sameVal(s, flow.Field(a, f.Name(), f.Type()), flow.Field(b, f.Name(), f.Type()), f.Type()) {
				return false
			}
		}
		return true
	}
	return s.Decide(flow.Eq(a, b)) == 1
}

// piece is one part of a list built by appending.
type piece struct {
	One    *flow.Term // a single element
	Spread *flow.Term // all elements of a list
	Loop   *loopList  // elements contributed by a loop
}

// loopList is the contribution of a loop to a list.
type loopList struct {
	Sum  *flow.LoopSum
	Sym  *flow.Term
	Elem *flow.Term // the element (or map value) one iteration handles
	Key  *flow.Term
	Over *flow.Term // collection
	It   []loopIter
	Loop string
}

type loopIter struct {
	St    *flow.State
	Parts []piece
	Same  bool // contributes nothing
}

// stores recorded for lists filled by index
type idxStore struct {
	Base, Idx, Val *flow.Term
	St             *flow.State
}

// pieces explains how a list value was built; nil if it cannot.
func pieces(x *flow.Exec, t *flow.Term) ([]piece, bool) {
	return pieces1(x, t, 0)
}

func emptyList(t *flow.Term) bool {
	return t.IsNil() || t.Op == "cat" && len(t.Args) == 0 || t.Op == "slice" && len(t.Args) > 2 && isInt(t.Args[2], 0)
}

func isInt(t *flow.Term, n int64) bool {
	v, ok := t.IsInt()
	return ok && v == n
}

func pieces1(x *flow.Exec, t *flow.Term, depth int) ([]piece, bool) {
	if depth > 8 {
		return nil, false
	}
	t = unwrap(t)
	if emptyList(t) {
		return nil, true
	}
	switch t.Op {
	case "cat":
		out := []piece{}
		for _, p := range t.Args {
			if p.Op == "one" {
				out = append(out, piece{One: p.Args[0]})
				continue
			}
			ps, ok := pieces1(x, p.Args[0], depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, ps...)
		}
		return out, true
	case "make":
		if ll := madeList(x, t); ll != nil {
			return []piece{{Loop: ll}}, true
		}
		if src := x.Copies[t]; src != nil {
			for _, is := range x.IdxStores {
				if is.Base == t {
					return nil, false
				}
			}
			return pieces1(x, src, depth+1)
		}
		return nil, false
	case "loopphi", "mphi", "field":
		// the list itself, or a field of what a loop makes
		of, pick := t, func(v *flow.Term) *flow.Term { return v }
		if t.Op == "field" {
			of = t.Args[0]
			if of.Op != "loopphi" && of.Op != "mphi" {
				return []piece{{Spread: t}}, true
			}
			pick = func(v *flow.Term) *flow.Term { return flow.Field(v, t.Str, t.Typ) }
		}
		rec := x.Rec[of]
		if rec == nil || len(rec.Init) != 1 {
			return []piece{{Spread: t}}, true
		}
		var init *flow.Term
		for i := range rec.Init {
			init = pick(i)
		}
		out, ok := pieces1(x, init, depth+1)
		if !ok {
			return nil, false
		}
		key := x.SymLoop[of]
		sum := x.LoopSums[key]
		if sum == nil {
			return nil, false
		}
		ll := &loopList{Sum: sum, Sym: t, Loop: key}
		ll.Over, ll.Elem, ll.Key = sumElem(x, sum)
		for _, it := range sum.Iters {
			step, ok := it.Steps[of]
			if !ok {
				step = of
			}
			step = pick(step)
			li := loopIter{St: it.St}
			if step == t {
				li.Same = true
			} else if step.Op == "cat" && step.Args[0].Op == "spread" && step.Args[0].Args[0] == t {
				ps, ok := pieces1(x, flow.Cat(nil, step.Args[1:]...), depth+1)
				if !ok {
					return nil, false
				}
				li.Parts = ps
			} else if in := innerLoop(x, step, t); in != nil {
				// an inner loop continues the list
				ps, ok := pieces1(x, in, depth+1)
				if !ok || len(ps) == 0 {
					return nil, false
				}
				li.Parts = ps[1:] // drop the symbol itself
				if ps[0].Spread != t {
					return nil, false
				}
			} else {
				return nil, false
			}
			ll.It = append(ll.It, li)
		}
		return append(out, piece{Loop: ll}), true
	}
	return []piece{{Spread: t}}, true
}

// innerLoop: step is (built on) an inner loop's symbol which started at t.
func innerLoop(x *flow.Exec, step, t *flow.Term) *flow.Term {
	if step.Op == "loopphi" || step.Op == "mphi" {
		if r := x.Rec[step]; r != nil && len(r.Init) == 1 && r.Init[t] {
			return step
		}
	}
	return nil
}

// sumElem is the collection a loop covers and the element of one iteration.
func sumElem(x *flow.Exec, sum *flow.LoopSum) (over, elem, key *flow.Term) {
	if sum.MapOver != nil {
		if m, ok := sum.MapOver.Typ.Underlying().(*types.Map); ok {
			return sum.MapOver, flow.Sym("lookup", "", m.Elem(), sum.MapOver, sum.MapKey), sum.MapKey
		}
		return nil, nil, nil
	}
	if sum.Over == nil || sum.Over.Typ == nil {
		return nil, nil, nil
	}
	s, ok := sum.Over.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, nil, nil
	}
	if sum.Index != nil && sum.Index.Op == "restidx" {
		return sum.Over, flow.Elem(sum.Index.Args[0], flow.Int(0), s.Elem()), nil
	}
	return sum.Over, flow.Elem(sum.Over, sum.Index, s.Elem()), sum.Index
}

// isTypeTest decides whether the dynamic type of t is typ in s.
func isTypeTest(s *flow.State, t *flow.Term, typ types.Type) int {
	return s.Decide(flow.TypeIs(t, typ))
}

// callTo reports whether a call resolved to fn.
func callTo(ci *flow.CallInfo, fn *ssa.Function) bool {
	return fn != nil && ci.Callee == fn
}

// one returns a single handled outcome.
func one(s *flow.State, t *flow.Term) []flow.Outcome { return []flow.Outcome{{St: s, Res: t}} }

// foreign reports whether storage reached through a term may be seen by others:
// it derives from parameters, fields, globals, elements or call results rather
// than from an allocation of the analysed call.
func foreign(t *flow.Term) bool {
	switch t.Op {
	case "param", "field", "elem", "lookup", "global", "freevar", "deref", "ta", "iface", "call", "pure", "result":
		if t.Op == "iface" || t.Op == "ta" {
			return foreign(t.Args[0])
		}
		return true
	case "slice":
		return foreign(t.Args[0])
	}
	return false
}

// storage lists where the backing storage of a list value may come from.
func storage(x *flow.Exec, t *flow.Term) []*flow.Term {
	out := []*flow.Term{}
	seen := map[*flow.Term]bool{}
	var walk func(t *flow.Term)
	walk = func(t *flow.Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "cat":
			// appending may reuse the storage of the first part
			if len(t.Args) > 0 && t.Args[0].Op == "spread" {
				walk(t.Args[0].Args[0])
			}
		case "loopphi", "mphi":
			if r := x.Rec[t]; r != nil {
				for i := range r.Init {
					walk(i)
				}
				for i := range r.Steps {
					walk(i)
				}
			}
		case "field":
			// a field of what a loop makes
			r := x.Rec[t.Args[0]]
			if r == nil || t.Args[0].Op != "loopphi" && t.Args[0].Op != "mphi" {
				out = append(out, t)
				return
			}
			for i := range r.Init {
				walk(flow.Field(i, t.Str, t.Typ))
			}
			for i := range r.Steps {
				walk(flow.Field(i, t.Str, t.Typ))
			}
		case "iface", "ta":
			walk(t.Args[0])
		default:
			out = append(out, t)
		}
	}
	walk(t)
	return out
}

// left reports whether the loop was left before it was exhausted on this path.
func (l *loopList) left(s *flow.State) bool { return s.Has("left:" + l.Loop) }

// loopSyms keeps facts about the results of loops.
func loopSyms(t *flow.Term) bool { return t.Op == "loopphi" || t.Op == "mphi" }

// madeList explains a list made with a length and filled by index in a loop.
func madeList(x *flow.Exec, t *flow.Term) *loopList {
	if len(t.Args) == 0 {
		return nil
	}
	for key, sum := range x.LoopSums {
		if sum.Over == nil || sum.Index == nil || flow.Len(sum.Over) != t.Args[0] {
			continue
		}
		ll := &loopList{Sum: sum, Sym: t, Loop: key}
		ll.Over, ll.Elem, ll.Key = sumElem(x, sum)
		for _, it := range sum.Iters {
			li := loopIter{St: it.St, Same: true}
			for _, is := range x.IdxStores {
				if is.Base != t || is.Idx != sum.Index || !is.In(it.St) {
					continue
				}
				v := is.Val
				if is.Field != "" { // filled in field by field
					v = flow.ZeroOf(t.Typ.Underlying().(*types.Slice).Elem())
					if !li.Same {
						v = li.Parts[0].One
					}
					v = flow.With(v, is.Field, is.Val)
				}
				li.Same = false
				li.Parts = []piece{{One: v}}
			}
			if li.Same {
				ll.It = nil // another loop
				break
			}
			ll.It = append(ll.It, li)
		}
		if len(ll.It) > 0 {
			return ll
		}
	}
	return nil
}

// holds reports whether a value contains t itself, not merely something
// computed from it.
func holds(v, t *flow.Term) bool {
	if v == nil || v == t {
		return v == t
	}
	switch v.Op {
	case "call", "pure", "result", "field", "len", "eq", "lt", "not", "deref":
		return false
	}
	for _, a := range v.Args {
		if holds(a, t) {
			return true
		}
	}
	return false
}
