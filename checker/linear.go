package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/checker/flow"
)

// lin is a linear form over integer terms.
type lin struct {
	m map[*flow.Term]int64
	k int64
}

func (l lin) add(o lin, f int64) lin {
	n := lin{m: map[*flow.Term]int64{}, k: l.k + f*o.k}
	for t, c := range l.m {
		n.m[t] = c
	}
	for t, c := range o.m {
		if n.m[t] += f * c; n.m[t] == 0 {
			delete(n.m, t)
		}
	}
	return n
}

func linInt(n int64) lin { return lin{m: map[*flow.Term]int64{}, k: n} }

// linOf converts an integer term.
func linOf(t *flow.Term) lin {
	if n, ok := t.IsInt(); ok {
		return linInt(n)
	}
	switch t.Op {
	case "add":
		return linOf(t.Args[0]).add(linOf(t.Args[1]), 1)
	case "sub":
		return linOf(t.Args[0]).add(linOf(t.Args[1]), -1)
	case "binop":
		if t.Str == "*" {
			for i := range t.Args {
				if n, ok := t.Args[i].IsInt(); ok {
					return linInt(0).add(linOf(t.Args[1-i]), n)
				}
			}
		}
	case "len":
		switch a := t.Args[0]; a.Op {
		case "strcat":
			n := linInt(0)
			for _, p := range a.Args {
				n = n.add(linOf(flow.Len(p)), 1)
			}
			return n
		case "slice":
			hi := linOf(flow.Len(a.Args[0]))
			if !a.Args[2].IsNil() {
				hi = linOf(a.Args[2])
			}
			return hi.add(linOf(a.Args[1]), -1)
		case "const":
			if s, ok := a.IsStr(); ok {
				return linInt(int64(len(s)))
			}
		}
	}
	return lin{m: map[*flow.Term]int64{t: 1}}
}

// constraints lists linear forms known to be at most 0.
func constraints(s *flow.State, nonneg func(*flow.Term) bool) []lin {
	out := []lin{}
	for f, v := range s.Facts {
		if len(f.Args) != 2 {
			continue
		}
		switch f.Op {
		case "lt":
			d := linOf(f.Args[0]).add(linOf(f.Args[1]), -1)
			if v {
				d.k++
				out = append(out, d)
			} else {
				out = append(out, linInt(0).add(d, -1))
			}
		case "eq":
			if !v || f.Args[1].IsNil() || f.Args[0].IsNil() {
				continue
			}
			if _, isS := f.Args[1].IsStr(); isS {
				if str, _ := f.Args[1].IsStr(); str == "" {
					out = append(out, linOf(flow.Len(f.Args[0])))
				}
				continue
			}
			if _, isB := f.Args[1].IsBool(); isB {
				continue
			}
			d := linOf(f.Args[0]).add(linOf(f.Args[1]), -1)
			out = append(out, d, linInt(0).add(d, -1))
		}
	}
	const big = int64(1) << 40
	for t, iv := range s.Ivals {
		if iv.Lo() > -big {
			d := linInt(0).add(linOf(t), -1)
			d.k += iv.Lo()
			out = append(out, d)
		}
		if iv.Hi() < big {
			d := linOf(t)
			d.k -= iv.Hi()
			out = append(out, d)
		}
	}
	return out
}

// lower is a lower bound every term of a kind has.
func lower(t *flow.Term, nonneg func(*flow.Term) bool) (int64, bool) {
	if t.Op == "len" || t.Op == "cap" {
		if n := minLen(t.Args[0]); n > 0 {
			return n, true
		}
		return 0, true
	}
	if nonneg != nil && nonneg(t) {
		return 0, true
	}
	return 0, false
}

// minLen is a lower bound of the length of a formatted text.
func minLen(t *flow.Term) int64 {
	n := flow.CallName(t)
	args := t.Args
	if t.Op == "fmt" {
		return 0
	}
	if n != "fmt.Sprintf" || len(args) < 1 {
		return 0
	}
	f, ok := args[0].IsStr()
	if !ok {
		return 0
	}
	min := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			min++
			continue
		}
		i++
		left := false
		width := int64(0)
		for i < len(f) && strings.IndexByte("+-# 0123456789", f[i]) >= 0 {
			if f[i] >= '0' && f[i] <= '9' {
				width = width*10 + int64(f[i]-'0')
			}
			left = left || f[i] == '-'
			i++
		}
		if i < len(f) && f[i] == '.' || i < len(f) && f[i] == '*' {
			return min // more than is needed
		}
		if width == 0 && i < len(f) && f[i] == '%' {
			width = 1
		}
		min += width
	}
	return min
}

// proves decides whether the facts of s imply goal <= 0, by eliminating the
// variables one by one from the facts and the goal's negation.
func proves(s *flow.State, nonneg func(*flow.Term) bool, goal lin) bool {
	neg := linInt(1).add(goal, -1) // goal >= 1
	return infeasible(append(constraints(s, nonneg), neg), neg, nonneg)
}

func infeasible(cs []lin, about lin, nonneg func(*flow.Term) bool) bool {
	// only facts connected to the goal matter
	vars := map[*flow.Term]bool{}
	for t := range about.m {
		vars[t] = true
	}
	use := make([]bool, len(cs))
	for changed := true; changed; {
		changed = false
		for i, c := range cs {
			if use[i] {
				continue
			}
			hit := len(c.m) == 0
			for t := range c.m {
				hit = hit || vars[t]
			}
			if hit {
				use[i], changed = true, true
				for t := range c.m {
					vars[t] = true
				}
			}
		}
	}
	sys := []lin{}
	for i, c := range cs {
		if use[i] {
			sys = append(sys, c)
		}
	}
	order := []*flow.Term{}
	for t := range vars {
		if n, ok := lower(t, nonneg); ok {
			d := linInt(n)
			d.m[t] = -1
			sys = append(sys, d)
		}
		order = append(order, t)
	}
	for len(order) > 0 {
		// eliminate the cheapest variable
		best, cost := 0, 1<<30
		for i, t := range order {
			p, n := 0, 0
			for _, c := range sys {
				switch k := c.m[t]; {
				case k > 0:
					p++
				case k < 0:
					n++
				}
			}
			if v := p*n - p - n; v < cost {
				best, cost = i, v
			}
		}
		t := order[best]
		order = append(order[:best], order[best+1:]...)
		next := []lin{}
		pos, negs := []lin{}, []lin{}
		for _, c := range sys {
			switch k := c.m[t]; {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				negs = append(negs, c)
			default:
				next = append(next, c)
			}
		}
		for _, p := range pos {
			for _, n := range negs {
				d := linInt(0).add(p, -n.m[t]).add(n, p.m[t])
				next = append(next, d)
			}
		}
		if len(next) > 4000 {
			return false
		}
		sys = next
		for _, c := range sys {
			if len(c.m) == 0 && c.k > 0 {
				return true
			}
		}
	}
	for _, c := range sys {
		if len(c.m) == 0 && c.k > 0 {
			return true
		}
	}
	return false
}

// sameInt decides whether two integer terms are equal under the facts.
func sameInt(s *flow.State, nonneg func(*flow.Term) bool, a, b lin) bool {
	d := a.add(b, -1)
	if len(d.m) == 0 {
		return d.k == 0
	}
	return proves(s, nonneg, d) && proves(s, nonneg, linInt(0).add(d, -1))
}

// sameIf is sameInt under further constraints.
func sameIf(s *flow.State, nonneg func(*flow.Term) bool, a, b lin, given ...lin) bool {
	d := a.add(b, -1)
	if len(d.m) == 0 {
		return d.k == 0
	}
	for _, f := range []int64{1, -1} {
		neg := linInt(1).add(d, -f)
		about := neg
		for i, g := range given {
			about = about.add(g, 1<<(20+i))
		}
		cs := append(constraints(s, nonneg), neg)
		if !infeasible(append(cs, given...), about, nonneg) {
			return false
		}
	}
	return true
}

// affine is a loop symbol which changes by the same amount in every iteration,
// in terms of the number of iterations before.
func affine(x *flow.Exec, t *flow.Term, back int64) (lin, bool) {
	rec := x.Rec[t]
	if rec == nil || x.SymLoop[t] == "" || len(rec.Init) != 1 || len(rec.Steps) == 0 {
		return lin{}, false
	}
	step, first := int64(0), true
	for st := range rec.Steps {
		d := linOf(st).add(linOf(t), -1)
		if len(d.m) != 0 || !first && d.k != step {
			return lin{}, false
		}
		step, first = d.k, false
	}
	var init *flow.Term
	for i := range rec.Init {
		init = i
	}
	iter := flow.Sym("iteration", x.SymLoop[t], nil)
	out := linOf(init)
	out = out.add(lin{m: map[*flow.Term]int64{iter: 1}, k: -back}, step)
	return out, true
}

// unloop replaces affine loop symbols of a loop; back is how many iterations
// before the current one the form is about.
func unloop(x *flow.Exec, l lin, loop string, back int64) lin {
	for again := 0; again < 4; again++ {
		out, changed := linInt(l.k), false
		for t, k := range l.m {
			if x.SymLoop[t] == loop {
				if a, ok := affine(x, t, back); ok {
					out, changed = out.add(a, k), true
					continue
				}
			}
			out = out.add(lin{m: map[*flow.Term]int64{t: 1}}, k)
		}
		l = out
		if !changed {
			break
		}
	}
	return l
}

// provesLoops is proves with induction over the iterations of the loops whose
// symbols the goal is about: at every point after the header either no
// iteration was completed or the facts at the end of an iteration held before.
func provesLoops(x *flow.Exec, s *flow.State, nonneg func(*flow.Term) bool, goal lin) bool {
	loop := ""
	for t := range goal.m {
		if l := x.SymLoop[t]; l != "" {
			if _, ok := affine(x, t, 0); ok {
				loop = l
			}
		}
	}
	if loop == "" {
		return proves(s, nonneg, goal)
	}
	// the pass before has followed every iteration
	sum := x.Sums1[loop]
	if sum == nil {
		sum = x.LoopSums[loop]
	}
	if sum == nil {
		return false
	}
	nn := func(t *flow.Term) bool { return t.Op == "iteration" || nonneg(t) }
	base := []lin{}
	for _, f := range constraints(s, nn) {
		base = append(base, unloop(x, f, loop, 0))
	}
	g := unloop(x, goal, loop, 0)
	neg := linInt(1).add(g, -1)
	iter := flow.Sym("iteration", loop, nil)
	zero := lin{m: map[*flow.Term]int64{iter: 1}}
	cs := append(append([]lin{}, base...), neg, zero)
	if !infeasible(cs, neg.add(zero, 1<<20), nn) {
		return false
	}
	for _, it := range sum.Iters {
		cs := append(append([]lin{}, base...), neg)
		for _, f := range constraints(it.St, nn) {
			cs = append(cs, unloop(x, f, loop, 1))
		}
		if !infeasible(cs, neg.add(zero, 1<<20), nn) {
			return false
		}
	}
	return len(sum.Iters) > 0
}

func (l lin) String() string {
	out := []string{}
	for t, k := range l.m {
		if k == 1 {
			out = append(out, t.String())
		} else {
			out = append(out, fmt.Sprintf("%d*%s", k, t))
		}
	}
	sort.Strings(out)
	if l.k != 0 || len(out) == 0 {
		out = append(out, fmt.Sprint(l.k))
	}
	return strings.Join(out, "+")
}
