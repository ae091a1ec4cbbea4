package main

import (
	"go/token"

	"verif/checker/flow"
)

// sought is one of the ways an existence can be shown: an element of a list
// for which hit holds, unless something excludes the list.
type sought struct {
	what   string
	over   *flow.Term
	hit    func(el *flow.Term) *flow.Term
	unless *flow.Term // may be nil
}

// existence decides that a function yields true exactly if base holds or one
// of the ways finds an element. more are further justifications.
type existence struct {
	c    *C
	x    *flow.Exec
	name string
	base *flow.Term // may be nil
	ways []sought

	moreTrue, moreFalse func(s *flow.State) bool
	none                func(s *flow.State, w sought) bool
}

// throughLoops records which loops were finished.
func throughLoops(r *flow.Rule) {
	r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
		if exhausted {
			s.AddSticky("through:" + l.Key)
		}
	}
}

func (q *existence) guarded(s *flow.State, w sought) bool {
	return w.unless == nil || excluded(s, []*flow.Term{w.unless})
}

// isTrue: t, which holds in s, shows that one of the ways succeeded.
func (q *existence) isTrue(s *flow.State, t *flow.Term, seen map[*flow.Term]bool) bool {
	if q.base != nil && (t == q.base || s.Decide(q.base) == 1) {
		return true
	}
	for _, sum := range q.x.LoopSums {
		over, el, _ := sumElem(q.x, sum)
		for _, w := range q.ways {
			if over != nil && over == w.over && (s.Decide(w.hit(el)) == 1 || t == w.hit(el)) && q.guarded(s, w) {
				return true
			}
		}
	}
	if q.moreTrue != nil && q.moreTrue(s) {
		return true
	}
	r := q.x.Rec[t]
	sum := q.x.LoopSums[q.x.SymLoop[t]]
	if r == nil || sum == nil || seen[t] {
		return false
	}
	seen[t] = true
	for i := range r.Init {
		if b, ok := i.IsBool(); ok && !b {
			continue
		}
		if !q.isTrue(s, i, seen) {
			return false
		}
	}
	over, el, _ := sumElem(q.x, sum)
	for _, it := range sum.Iters {
		v := it.Steps[t]
		if v == nil || v == t || over == nil {
			if over == nil {
				return false
			}
			continue
		}
		if b, ok := v.IsBool(); ok && !b {
			continue
		}
		ok := false
		for _, w := range q.ways {
			ok = ok || over == w.over && q.guarded(it.St, w) && excluded(it.St, []*flow.Term{v, flow.Not(t), flow.Not(w.hit(el))})
		}
		if !ok {
			return false
		}
	}
	return true
}

// carries: t, which is false in s, was false if v ever was true.
func (q *existence) carries(t, v *flow.Term, seen map[*flow.Term]bool) bool {
	if t == v {
		return true
	}
	r := q.x.Rec[t]
	sum := q.x.LoopSums[q.x.SymLoop[t]]
	if r == nil || sum == nil || seen[t] || len(r.Init) != 1 {
		return false
	}
	seen[t] = true
	for i := range r.Init {
		if !q.carries(i, v, seen) {
			return false
		}
	}
	return q.monotone(t)
}

// monotone: once true, it stays true.
func (q *existence) monotone(t *flow.Term) bool {
	sum := q.x.LoopSums[q.x.SymLoop[t]]
	for _, it := range sum.Iters {
		v := it.Steps[t]
		if v == nil {
			v = t
		}
		if !excluded(it.St, []*flow.Term{t, flow.Not(v)}) {
			return false
		}
	}
	return true
}

// isFalse: s, where t is false, shows that none of the ways can succeed.
func (q *existence) isFalse(s *flow.State, t *flow.Term) (bool, string) {
	if q.moreFalse != nil && q.moreFalse(s) {
		return true, ""
	}
	if q.base != nil && s.Decide(q.base) != 0 && !q.carries(t, q.base, map[*flow.Term]bool{}) {
		return false, "the section itself"
	}
	for _, w := range q.ways {
		if w.unless != nil && s.Decide(w.unless) == 1 {
			continue
		}
		if s.Decide(flow.Eq(flow.Len(w.over), flow.Int(0))) == 1 {
			continue
		}
		ok := q.none != nil && q.none(s, w)
		for key, sum := range q.x.LoopSums {
			over, el, _ := sumElem(q.x, sum)
			if over == nil || over != w.over || !s.Has("through:"+key) {
				continue
			}
			// no iteration may go on after a hit, or it is remembered
			stops := !s.Has("left:" + key)
			for _, it := range sum.Iters {
				stops = stops && excluded(it.St, []*flow.Term{w.hit(el)})
			}
			if stops {
				ok = true
				continue
			}
			for v, lk := range q.x.SymLoop {
				if lk != key || q.x.Rec[v] == nil || !q.carries(t, v, map[*flow.Term]bool{}) || !q.monotone(v) {
					continue
				}
				good := true
				for _, it := range sum.Iters {
					n := it.Steps[v]
					if n == nil {
						n = v
					}
					good = good && excluded(it.St, []*flow.Term{w.hit(el), flow.Not(n)})
				}
				ok = ok || good
			}
		}
		if !ok {
			return false, w.what
		}
	}
	return true, ""
}

func (q *existence) exit(e exitRec) {
	q.c.Obl("outcomes")
	res := e.Res[0]
	for _, want := range []bool{true, false} {
		s := e.St
		if b, ok := res.IsBool(); ok {
			if b != want {
				continue
			}
		} else {
			f := res
			if !want {
				f = flow.Not(res)
			}
			if s = consistent(e.St, f); s == nil {
				continue
			}
		}
		if want {
			if !q.isTrue(s, res, map[*flow.Term]bool{}) {
				q.c.VP(q.name, e.Pos, s.Path(), "%s can be true although nothing was found for which it should be", q.name)
			}
			continue
		}
		if ok, what := q.isFalse(s, res); !ok {
			q.c.VP(q.name, e.Pos, s.Path(), "%s can be false although it may be true because of %s", q.name, what)
		}
	}
}
