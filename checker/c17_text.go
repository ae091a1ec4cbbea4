package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C17", Title: "Parsing loses no text",
		Rule:  "The grammar is read from the tables the parser runs. Every part of an action's expression must be a lookahead, a comment, white space, a pair of braces, an escaping backslash, or else be bound to a label (or the matched text be used as a whole). The summary of the action's function must, on every path which yields a tree, consist of the bound values (absent ones aside) exactly once and in order - lists element by element, text whole or without the leading backslash - and add nothing but a space for a line break inside an argument. White space may only be passed over where the grammar's predecessor relation shows that a line or the document starts, or a comment ended. Blocks lose no more than the indentation of their first line. The document rule must end at the end of the input. Calls keep name, arguments and position.",
		Trust: []string{"the parser runtime in the generated file interprets the tables as documented"},
		Run:   runC17,
	})
}

func runC17(c *C) {
	g := newGram(c)
	g.actions()
	g.ends()
	for _, a := range g.Acts {
		g.keeps(a)
	}
	g.each(func(e *gexpr) { g.passedOver(e) })
	newLocator(c).parsedCalls()
	c.Need("actions", 2)
	c.Need("bound values kept", 2)
	c.Need("texts kept", 1)
	c.Need("white space passed over", 1)
}

// ends: the document is all of the input.
func (g *gram) ends() {
	c := g.c
	e := g.strip(g.Order[0].Expr)
	if e.Kind == "seq" {
		e = g.strip(e.Kids[len(e.Kids)-1])
	}
	if e.Kind != "not" || g.strip(e.Kids[0]).Kind != "any" {
		c.V("ends", g.Order[0].Pos, "the document rule %s does not end at the end of the input: what follows is silently left out", g.Order[0].Name)
	}
}

// key identifies terms up to type assertions.
func termKey(t *flow.Term) string {
	for t.Op == "ta" || t.Op == "iface" {
		t = t.Args[0]
	}
	var b strings.Builder
	b.WriteString(t.Op + "\x00" + t.Str + "(")
	for _, a := range t.Args {
		b.WriteString(termKey(a) + ",")
	}
	b.WriteString(")")
	return b.String()
}

type noAtoms struct{ why string }

// atoms are the parts a value consists of, in order: bound values, elements,
// matched text, constants.
func (g *gram) atoms(a *gaction, s *flow.State, t *flow.Term, depth int) []*flow.Term {
	if depth > 14 {
		panic(noAtoms{"is too deep"})
	}
	for t.Op == "ta" || t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	if str, ok := t.IsStr(); ok {
		if str == "" {
			return nil
		}
		return []*flow.Term{t}
	}
	if _, ok := labelOf(t); ok || t.Op == "elem" || t == a.Text {
		return []*flow.Term{t}
	}
	switch t.Op {
	case "nil", "zero":
		if t.IsNil() || t.Typ == nil || structOf(t.Typ) == nil {
			return nil
		}
	case "slice":
		return []*flow.Term{t}
	case "strcat":
		out := []*flow.Term{}
		for _, p := range t.Args {
			out = append(out, g.atoms(a, s, p, depth+1)...)
		}
		return out
	case "loopphi", "mphi":
		if t.Typ != nil && isStr(t.Typ) {
			return g.built(a, s, t, depth)
		}
	}
	if t.Typ != nil && structOf(t.Typ) != nil {
		if n, ok := types.Unalias(t.Typ).(*types.Named); ok && n.Obj().Name() == "Location" {
			return nil
		}
		st := structOf(t.Typ)
		out := []*flow.Term{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if typeName(f.Type()) == "Location" {
				continue
			}
			out = append(out, g.atoms(a, s, get(s, t, f.Name(), f.Type()), depth+1)...)
		}
		return out
	}
	if rec := a.X.Rec[t]; rec != nil && len(rec.Init) > 1 && a.X.LoopSums[a.X.SymLoop[t]] != nil {
		return g.continued(a, s, t, depth)
	}
	ps, ok := pieces(a.X, t)
	if !ok {
		panic(noAtoms{"is not shown to be put together from what was parsed (" + t.String() + ")"})
	}
	out := []*flow.Term{}
	for _, p := range ps {
		switch {
		case p.One != nil:
			out = append(out, g.atoms(a, s, p.One, depth+1)...)
		case p.Spread != nil:
			if p.Spread == t {
				panic(noAtoms{"is " + t.String()})
			}
			out = append(out, g.atoms(a, s, p.Spread, depth+1)...)
		default:
			out = append(out, g.each1(a, s, p.Loop, depth)...)
		}
	}
	return g.whole(a, s, out)
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// each1: a loop contributes every element of what it ranges over.
func (g *gram) each1(a *gaction, s *flow.State, l *loopList, depth int) []*flow.Term {
	if l.Over == nil || l.Elem == nil {
		panic(noAtoms{"is made by a loop which does not range over a list"})
	}
	if l.left(s) {
		panic(noAtoms{"is made by a loop which can end early"})
	}
	for _, it := range l.It {
		made := []*flow.Term{}
		for _, q := range it.Parts {
			switch {
			case q.One != nil:
				made = append(made, g.atoms(a, it.St, q.One, depth+1)...)
			case q.Spread != nil:
				made = append(made, g.atoms(a, it.St, q.Spread, depth+1)...)
			default:
				made = append(made, g.each1(a, it.St, q.Loop, depth+1)...)
			}
		}
		made = g.lineOf(a, it.St, made, l)
		if len(made) != 1 || termKey(made[0]) != termKey(l.Elem) {
			if it.Same || len(made) == 0 {
				panic(noAtoms{"can leave out an element of a list (" + it.St.Path() + ")"})
			}
			panic(noAtoms{"has " + termStr(made[0]) + " and " + itoa(len(made)-1) + " more for an element of a list"})
		}
	}
	return g.atoms(a, s, l.Over, depth+1)
}

// lineOf: a line whose first part lost the indentation of the first line.
func (g *gram) lineOf(a *gaction, s *flow.State, made []*flow.Term, l *loopList) []*flow.Term {
	if len(made) == 0 {
		return made
	}
	rest := made[len(made)-1]
	if rest.Op != "slice" || len(rest.Args) != 3 || !isInt(rest.Args[1], 1) || !rest.Args[2].IsNil() || termKey(rest.Args[0]) != termKey(l.Elem) {
		return made
	}
	own := flow.Elem(unwrap(l.Elem), flow.Int(0), nil)
	first := flow.Elem(flow.Elem(unwrap(l.Over), flow.Int(0), nil), flow.Int(0), nil)
	lenKey := func(t *flow.Term) string { return termKey(flow.Sym("len", "", nil, t)) }
	deeper := func() bool { // the first line's indentation is longer
		for f, v := range s.Facts {
			if f.Op != "lt" {
				continue
			}
			x, y := termKey(f.Args[0]), termKey(f.Args[1])
			if v && x == lenKey(own) && y == lenKey(first) || !v && x == lenKey(first) && y == lenKey(own) {
				return true
			}
		}
		return false
	}
	switch len(made) {
	case 1:
		if !deeper() {
			panic(noAtoms{"loses the whole indentation of a line"})
		}
		return []*flow.Term{l.Elem}
	case 2:
		ind := made[0]
		if termKey(ind) == termKey(own) {
			return []*flow.Term{l.Elem}
		}
		if ind.Op == "slice" && len(ind.Args) == 3 && ind.Args[2].IsNil() && termKey(ind.Args[0]) == termKey(own) {
			k := termKey(ind.Args[1])
			if k == lenKey(first) || k == lenKey(own) && deeper() {
				return []*flow.Term{l.Elem}
			}
			panic(noAtoms{"loses more than the indentation of the block's first line (" + ind.Args[1].String() + ")"})
		}
	}
	return made
}

// whole: a list's first element and all others are the list.
func (g *gram) whole(a *gaction, s *flow.State, ts []*flow.Term) []*flow.Term {
	out := []*flow.Term{}
	for i := 0; i < len(ts); i++ {
		if i+1 < len(ts) {
			e, r := ts[i], ts[i+1]
			if e.Op == "elem" && isInt(e.Args[1], 0) && r.Op == "slice" && isInt(r.Args[1], 1) && r.Args[2].IsNil() && termKey(e.Args[0]) == termKey(r.Args[0]) {
				out = append(out, unwrap(e.Args[0]))
				i++
				continue
			}
		}
		out = append(out, ts[i])
	}
	return out
}

// continued: a loop adds to one of several lists, depending on the path: the
// indentation of a line as it is left by removing that of the first line.
func (g *gram) continued(a *gaction, s *flow.State, t *flow.Term, depth int) []*flow.Term {
	var pick []*flow.Term
	for i := range a.X.Rec[t].Init {
		as := g.atoms(a, s, i, depth+1)
		if len(as) > 1 {
			panic(noAtoms{"continues different lists"})
		}
		if len(as) == 1 {
			if pick != nil && termKey(pick[0]) != termKey(as[0]) {
				panic(noAtoms{"continues different lists"})
			}
			pick = as
		}
	}
	sum := a.X.LoopSums[a.X.SymLoop[t]]
	ll := &loopList{Sum: sum, Sym: t, Loop: a.X.SymLoop[t]}
	ll.Over, ll.Elem, ll.Key = sumElem(a.X, sum)
	for _, it := range sum.Iters {
		step, ok := it.Steps[t]
		li := loopIter{St: it.St, Same: !ok || step == t}
		if !li.Same {
			if step.Op != "cat" || step.Args[0].Op != "spread" || step.Args[0].Args[0] != t {
				panic(noAtoms{"is built from " + step.String()})
			}
			ps, ok := pieces(a.X, flow.Cat(nil, step.Args[1:]...))
			if !ok {
				panic(noAtoms{"is built from " + step.String()})
			}
			li.Parts = ps
		}
		ll.It = append(ll.It, li)
	}
	return append(pick, g.each1(a, s, ll, depth)...)
}

// built: text put together by a loop.
func (g *gram) built(a *gaction, s *flow.State, t *flow.Term, depth int) []*flow.Term {
	rec := a.X.Rec[t]
	sum := a.X.LoopSums[a.X.SymLoop[t]]
	if rec == nil || sum == nil || len(rec.Init) != 1 {
		panic(noAtoms{"is " + t.String()})
	}
	out := []*flow.Term{}
	for i := range rec.Init {
		if i.Op != "field" { // a builder starts out empty
			out = append(out, g.atoms(a, s, i, depth+1)...)
		}
	}
	ll := &loopList{Sum: sum, Sym: t, Loop: a.X.SymLoop[t]}
	ll.Over, ll.Elem, ll.Key = sumElem(a.X, sum)
	for _, it := range sum.Iters {
		step, ok := it.Steps[t]
		li := loopIter{St: it.St}
		switch {
		case !ok || step == t:
			li.Same = true
		case step.Op == "strcat" && step.Args[0] == t:
			for _, p := range step.Args[1:] {
				li.Parts = append(li.Parts, piece{One: p})
			}
		default:
			panic(noAtoms{"is built from " + step.String()})
		}
		ll.It = append(ll.It, li)
	}
	return append(out, g.each1(a, s, ll, depth)...)
}

// keeps checks one action.
func (g *gram) keeps(a *gaction) {
	c := g.c
	e := a.Expr.Kids[0]
	rule := a.Expr.Rule.Name
	c.Obl("actions")
	wholes := 0
	paths := 0
	for _, ex := range a.Exits {
		if errPath(ex.St, ex.Res) {
			continue
		}
		paths++
		var as []*flow.Term
		why := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					n, ok := r.(noAtoms)
					if !ok {
						panic(r)
					}
					why = n.why
				}
			}()
			as = g.atoms(a, ex.St, ex.Res[0], 0)
		}()
		if why != "" {
			c.VP("keeps:"+rule, ex.Pos, ex.St.Path(), "what the grammar rule %s yields %s", rule, why)
			continue
		}
		if len(as) == 1 && (as[0] == a.Text || as[0].Op == "slice" && as[0].Args[0] == a.Text) {
			wholes++
			c.Obl("texts kept")
			if k := g.strip(e); as[0] == a.Text && k.Kind == "seq" && len(k.Kids) > 1 {
				if o := g.strip(k.Kids[0]); o.Kind == "lit" && o.Lit == `\` && !g.dropped(k) {
					c.VP("cut:"+rule, ex.Pos, ex.St.Path(), "the grammar rule %s keeps the backslash of an escaped character", rule)
				}
			}
			if as[0].Op == "slice" {
				if w := g.cut(e, as[0]); w != "" {
					c.VP("cut:"+rule, ex.Pos, ex.St.Path(), "the grammar rule %s keeps %s", rule, w)
				}
			}
			continue
		}
		if g.dropped(e) {
			text := ""
			for _, t := range as {
				if str, ok := t.IsStr(); ok {
					text += str
				} else {
					text += "?"
				}
			}
			brk := g.consumes(e, '\n') && !g.nullable(e)
			if v := unwrap(ex.Res[0]); brk && !v.IsNil() && text != " " || !brk && text != "" {
				c.VP("space:"+rule, ex.Pos, ex.St.Path(), "the grammar rule %s yields %q for white space", rule, text)
			}
			continue
		}
		want := []string{}
		for _, l := range g.labels(a.Expr) {
			if g.unkept(l) {
				continue
			}
			dup := false
			for _, w := range want {
				dup = dup || w == l.Label
			}
			term := g.bound(as, l.Label)
			if term == nil {
				term = g.boundIn(ex.St, l.Label)
			}
			if dup || term != nil && ex.St.IsNil(term) == 1 || g.none(a, ex.St, l.Label) {
				continue
			}
			want = append(want, l.Label)
		}
		got := []string{}
		extra := ""
		for _, t := range as {
			name, ok := labelOf(t)
			if !ok {
				extra = t.String()
				continue
			}
			isDropped := false
			for _, l := range g.labels(a.Expr) {
				isDropped = isDropped || l.Label == name && g.unkept(l)
			}
			if !isDropped {
				got = append(got, name)
			}
		}
		c.Obl("bound values kept")
		if extra != "" {
			c.VP("keeps:"+rule, ex.Pos, ex.St.Path(), "the grammar rule %s yields %s, which is not what was parsed", rule, extra)
		} else if strings.Join(got, " ") != strings.Join(want, " ") {
			c.VP("keeps:"+rule, ex.Pos, ex.St.Path(), "the grammar rule %s yields [%s] of the parsed values [%s]", rule, strings.Join(got, " "), strings.Join(want, " "))
		}
	}
	if paths > 0 && wholes == paths {
		return
	}
	g.covered(a, e)
}

// unkept: a bound value which is not text: dropped white space or comments.
func (g *gram) unkept(l *gexpr) bool {
	if !g.dropped(l.Kids[0]) {
		return false
	}
	for _, v := range g.values(l.Kids[0]) {
		if v.Kind == "type" {
			return false
		}
	}
	return true
}

// none: on the path the bound list is empty.
func (g *gram) none(a *gaction, s *flow.State, name string) bool {
	for f, v := range s.Facts {
		if !v || f.Op != "eq" {
			continue
		}
		for i, t := range f.Args {
			if t.Op != "len" || !isInt(f.Args[1-i], 0) {
				continue
			}
			for _, n := range g.lengths(a, s, t.Args[0]) {
				if n.Op != "len" {
					continue
				}
				if l, ok := labelOf(unwrap(n.Args[0])); ok && l == name {
					return true
				}
			}
		}
	}
	return false
}

func (g *gram) bound(as []*flow.Term, name string) *flow.Term {
	for _, t := range as {
		if n, ok := labelOf(t); ok && n == name {
			return t
		}
	}
	return nil
}

// boundIn finds a label's value in the facts of a path.
func (g *gram) boundIn(s *flow.State, name string) *flow.Term {
	var found *flow.Term
	for f := range s.Facts {
		f.Walk(func(u *flow.Term) {
			if n, ok := labelOf(u); ok && n == name && u.Op == "lookup" {
				found = u
			}
		})
	}
	return found
}

// cut: the text without its leading delimiter.
func (g *gram) cut(e *gexpr, t *flow.Term) string {
	n, ok := t.Args[1].IsInt()
	e = g.strip(e)
	if !ok || !t.Args[2].IsNil() || e.Kind != "seq" {
		return "only a part of the matched text (" + t.String() + ")"
	}
	k := g.strip(e.Kids[0])
	if k.Kind != "lit" || k.Lit != `\` || int(n) != len(k.Lit) {
		return "the matched text from byte " + itoa(int(n)) + " on, which is not just without its leading backslash"
	}
	return ""
}

// covered: everything matched is bound or may be dropped.
func (g *gram) covered(a *gaction, e *gexpr) {
	c := g.c
	rule := a.Expr.Rule.Name
	if e.lookahead() || g.dropped(e) || e.Kind == "label" {
		return
	}
	lost := func(k *gexpr) {
		what := k.Kind
		switch k.Kind {
		case "ref":
			what = k.Ref
		case "lit":
			what = `"` + k.Lit + `"`
		case "class", "any":
			what = "a character"
		}
		c.V("lost:"+rule, k.Pos, "the grammar rule %s matches %s without keeping it", rule, what)
	}
	switch e.Kind {
	case "lit", "class", "any", "ref", "action":
		lost(e)
	case "choice", "star", "plus", "opt":
		for _, k := range e.Kids {
			g.covered(a, k)
		}
	case "seq":
		delim := map[int]bool{}
		for i, k := range e.Kids {
			o := g.strip(k)
			if o.Kind != "lit" || o.Lit == "" {
				continue
			}
			if o.Lit == `\` {
				for _, r := range e.Kids[i+1:] {
					if !g.dropped(r) {
						delim[i] = true
					}
				}
			}
			if strings.Trim(o.Lit, "{") == "" {
				for j := len(e.Kids) - 1; j > i; j-- {
					q := g.strip(e.Kids[j])
					if q.Kind == "lit" && q.Lit == strings.Repeat("}", len(o.Lit)) && !delim[j] {
						delim[i], delim[j] = true, true
						break
					}
				}
			}
		}
		for i, k := range e.Kids {
			if !delim[i] {
				g.covered(a, k)
			}
		}
	}
}

// passedOver: white space which is not kept must be indentation.
func (g *gram) passedOver(e *gexpr) {
	c := g.c
	if e.Kind != "star" && e.Kind != "plus" && e.Kind != "opt" && e.Kind != "class" && e.Kind != "lit" {
		return
	}
	if !g.blank(e, " \t\r\n") || !g.consumes(e, ' ') && !g.consumes(e, '\t') {
		return
	}
	if e.Up != nil && (e.Up.Kind == "star" || e.Up.Kind == "plus" || e.Up.Kind == "opt") {
		return
	}
	var outer *gexpr
	for u := e.Up; u != nil; u = u.Up {
		if u.lookahead() || u.Kind == "label" && !g.dropped(u.Kids[0]) && g.blank(u.Kids[0], " \t\r\n") {
			return
		}
		if g.comment(u) {
			return
		}
		if u.Kind == "label" || u.Kind == "action" {
			if outer == nil {
				outer = u
			}
		}
	}
	if outer != nil && outer.Kind == "action" && outer.Act != nil {
		all := len(outer.Act.Exits) > 0
		for _, ex := range outer.Act.Exits {
			all = all && (errPath(ex.St, ex.Res) || ex.Res[0].Mentions(outer.Act.Text))
		}
		if all {
			return
		}
	}
	c.Obl("white space passed over")
	seen := map[*gexpr]bool{}
	bad := map[string]bool{}
	g.before(e, seen, func(t *gexpr) {
		switch t.Kind {
		case "lit":
			if strings.HasSuffix(t.Lit, "\n") || t.Lit == "-}" {
				return
			}
			bad[`"`+t.Lit+`"`] = true
		case "class":
			if g.blank(t, "\r\n") {
				return
			}
			bad["text"] = true
		default:
			bad["text"] = true
		}
	})
	for b := range bad {
		c.V("space:"+e.Rule.Name, e.Pos, "the grammar rule %s passes over white space which can follow %s and so is part of the text", e.Rule.Name, b)
		break
	}
}

// greedy: a repetition which would have consumed white space itself.
func (g *gram) greedy(e *gexpr) bool {
	e = g.strip(e)
	return (e.Kind == "star" || e.Kind == "plus") && g.sure(e.Kids[0], ' ') && g.sure(e.Kids[0], '\t')
}

// before calls f for the terminals which may come right before an expression
// that starts with white space.
func (g *gram) before(e *gexpr, seen map[*gexpr]bool, f func(*gexpr)) {
	if seen[e] {
		return
	}
	seen[e] = true
	up := e.Up
	if up == nil {
		g.each(func(r *gexpr) {
			if r.Kind == "ref" && g.Rules[r.Ref] == e.Rule {
				g.before(r, seen, f)
			}
		})
		return
	}
	switch up.Kind {
	case "seq":
		at := 0
		for i, k := range up.Kids {
			if k == e {
				at = i
			}
		}
		for i := at - 1; i >= 0; i-- {
			k := up.Kids[i]
			if g.greedy(k) {
				return
			}
			g.last(k, map[*grule]bool{}, f)
			if !g.nullable(k) {
				return
			}
		}
	case "star", "plus":
		g.last(up.Kids[0], map[*grule]bool{}, f)
	case "choice":
		for _, k := range up.Kids {
			if k == e {
				break
			}
			if g.sure(k, ' ') && g.sure(k, '\t') {
				return
			}
		}
	}
	g.before(up, seen, f)
}

// last calls f for the terminals an expression may end with, if white space
// follows.
func (g *gram) last(e *gexpr, seen map[*grule]bool, f func(*gexpr)) {
	switch e.Kind {
	case "lit", "class", "any":
		f(e)
	case "star", "plus":
		if !g.greedy(e) {
			g.last(e.Kids[0], seen, f)
		}
	case "seq":
		for i := len(e.Kids) - 1; i >= 0; i-- {
			k := e.Kids[i]
			if k.lookahead() {
				continue
			}
			if g.greedy(k) {
				return
			}
			g.last(k, seen, f)
			if !g.nullable(k) {
				return
			}
		}
	case "choice", "label", "action", "opt":
		for _, k := range e.Kids {
			g.last(k, seen, f)
		}
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return
		}
		seen[r] = true
		g.last(r.Expr, seen, f)
		delete(seen, r)
	}
}
