package main

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C37", Title: "Section numbers are the position path of the section",
		Rule:  "Section.Number is summarised symbolically with its recursive call. Variables of its loops which grow by one per iteration are rewritten to the iteration count plus their start. Every exit must yield nothing for a root and else the number of the parent, a dot unless that is empty, and the number of the iteration which is known to be at the section among the children of its parent, counted from one. Exits after a search without a hit must be excluded: no iteration may go on at the section.",
		Trust: []string{"children are listed once, under their parent (decided by C29)", "package fmt and strconv print integers in decimal"},
		Run:   runC37,
	})
}

// counters are loop variables which grow by one in every iteration; they are
// rewritten to the iteration number.
func counters(x *flow.Exec) map[*flow.Term]*flow.Term {
	m := map[*flow.Term]*flow.Term{}
	for t, r := range x.Rec {
		key := x.SymLoop[t]
		if key == "" || len(r.Init) != 1 || len(r.Steps) != 1 || !r.Steps[flow.Add(t, flow.Int(1))] {
			continue
		}
		if sum := x.LoopSums[key]; sum != nil {
			ok := true
			for _, it := range sum.Iters {
				ok = ok && it.Steps[t] == flow.Add(t, flow.Int(1))
			}
			if !ok {
				continue
			}
		}
		for i := range r.Init {
			if _, isC := i.IsInt(); isC {
				m[t] = flow.Add(flow.Sym("iteration", key, types.Typ[types.Int]), i)
			}
		}
	}
	return m
}

func runC37(c *C) {
	ch := newChain(c)
	sec := flow.Sym("param", "section", ch.secT)
	fn := c.meth(mod, "Section", "Number")
	p := ch.parent(sec)
	noP := flow.Eq(p, flow.Nil())
	kids := flow.Field(p, "Children", fieldTypeOf(c.P.named(mod, "Section"), "Children"))
	up := flow.Sym("pure", "number", types.Typ[types.String], p)
	noNumber := []*flow.Term{flow.Eq(up, flow.StrConst("")), flow.Eq(ch.parent(p), flow.Nil())}
	number := []*flow.Term{flow.Not(noNumber[0]), flow.Not(noNumber[1])}
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == fn {
			return one(s, flow.Sym("pure", "number", types.Typ[types.String], ci.Args...)), true
		}
		return c.builder(x, s, ci)
	}
	r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
		if exhausted {
			s.AddSticky("through:" + l.Key)
		}
	}
	x, exits := c.run(r, fn, []*flow.Term{sec}, nil)
	count := counters(x)
	// the position is one more than that of an element known to be the section
	at := func(s *flow.State, pos *flow.Term) bool {
		for f, v := range s.Facts {
			if !v || f.Op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				a, b := f.Args[k], f.Args[1-k]
				if b == sec && a.Op == "elem" && a.Args[0] == kids && flow.Add(a.Args[1], flow.Int(1)).Subst(count) == pos.Subst(count) {
					return true
				}
			}
		}
		return false
	}
	numbered := map[bool]bool{}
	for _, e := range exits {
		c.Obl("outcomes")
		s := e.St
		bad := func(f string, a ...any) { c.VP("number", e.Pos, s.Path(), "the number "+f, a...) }
		if v, ok := e.Res[0].IsStr(); ok && v == "" {
			if !excluded(s, []*flow.Term{flow.Not(noP)}) {
				bad("is empty for a section with a parent")
			}
			continue
		}
		if !excluded(s, []*flow.Term{noP}) {
			bad("is that of a child although there may be no parent")
		}
		parts := []*flow.Term{e.Res[0]}
		if e.Res[0].Op == "strcat" {
			parts = e.Res[0].Args
		} else if flow.CallName(e.Res[0]) == "strings.Join" && len(e.Res[0].Args) == 2 {
			if ps, ok := pieces(x, e.Res[0].Args[0]); ok {
				parts = nil
				for i, q := range ps {
					if i > 0 {
						parts = append(parts, e.Res[0].Args[1])
					}
					if q.One == nil {
						parts = append(parts, e.Res[0])
					} else {
						parts = append(parts, q.One)
					}
				}
			}
		}
		last := parts[len(parts)-1]
		switch {
		case len(parts) == 1:
			numbered[false] = true
			if !excluded(s, number) {
				bad("lacks that of the parent")
			}
		case len(parts) == 3 && parts[0] == up && parts[1] == flow.StrConst("."):
			numbered[true] = true
			if !excluded(s, noNumber) {
				bad("starts with a dot below the root")
			}
		default:
			bad("is %s", e.Res[0])
			continue
		}
		var pos *flow.Term
		switch n := flow.CallName(last); {
		case last.Op == "fmt" && (last.Str == "d" || last.Str == "v"):
			pos = unwrap(last.Args[0])
		case n == "strconv.Itoa" || n == "strconv.FormatInt" && isInt(last.Args[1], 10) || n == "strconv.FormatUint" && isInt(last.Args[1], 10):
			pos = last.Args[0]
		case n == "fmt.Sprint":
			if ps, ok := pieces(x, last.Args[0]); ok && len(ps) == 1 && ps[0].One != nil {
				pos = unwrap(ps[0].One)
			}
		}
		if pos == nil {
			bad("ends in %s", last)
			continue
		}
		for pos.Op == "conv" {
			pos = unwrap(pos.Args[0])
		}
		ok := at(s, pos)
		for key, sum := range x.LoopSums { // nothing was found, or it was remembered
			over, el, idx, from := seqElem(x, sum)
			if ok || over != kids || from != 0 || !s.Has("through:"+key) || s.Has("left:"+key) {
				continue
			}
			hit := []*flow.Term{flow.Eq(el, sec)}
			good := true
			for _, it := range sum.Iters {
				st := it.Steps[pos]
				if excluded(it.St, hit) {
					good = good && (x.SymLoop[pos] != key || st == nil || st == pos || count[pos] != nil)
				} else {
					good = good && x.SymLoop[pos] == key && st != nil && idx != nil && it.St.Decide(hit[0]) == 1 && st.Subst(count) == flow.Add(idx, flow.Int(1)).Subst(count)
				}
			}
			ok = good
		}
		if !ok {
			bad("ends in %s, which is not shown to be the position of the section among its siblings", strings.TrimSpace(pos.String()))
		}
	}
	for _, b := range []bool{false, true} {
		if !numbered[b] {
			c.V("number", fn.Pos(), "no section below %s is numbered", map[bool]string{false: "the root", true: "a numbered one"}[b])
		}
	}
	c.Need("outcomes", 3)
}
