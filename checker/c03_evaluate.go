package main

import (
	"go/token"
	"go/types"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C03", Title: "Evaluation keeps every piece of a document, once and in order",
		Rule:  "Each evaluating visitor method is summarised symbolically with the previous result as a symbol and nested evaluations as symbols. On every successful path the new result must be exactly the previous result joined with the content of the visited parts: loops run over all parts in order and add each one's content once (skipping only absent content), and the three outcomes for paragraphs must be taken exactly under their conditions. Joining itself is summarised per appended item by cases on what it joins to. The evaluated result becomes the body of the section returned.",
		Trust: []string{"nested evaluation is summarised by the property itself (induction over the syntax tree)", "function results are joined as decided by C19"},
		Run:   runC03,
	})
}

func runC03(c *C) {
	m := newEvalModel(c)
	strT := c.P.named(mod, "String")
	recv := flow.Sym("param", "evaluator", m.ptr)
	r0 := flow.Field(recv, m.res, m.con)
	isFlow := func(s *flow.State, t *flow.Term) int {
		return s.Decide(flow.Sym("pure", "isflow", types.Typ[types.Bool], t))
	}
	call := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Name == "invoke:("+mod+".Content).IsFlow" {
			return one(s, flow.Sym("pure", "isflow", types.Typ[types.Bool], ci.Args[0])), true
		}
		return m.call(x, s, ci)
	}
	final := func(e exitRec) *flow.Term { return e.St.Load(m.resultAddr(recv), m.con) }
	// lines: a list with the content of every line
	lines := func(name string, x *flow.Exec, p, node *flow.Term, e exitRec) bool {
		bad := func(f string, a ...any) bool {
			c.VP("lines:"+name, e.Pos, e.St.Path(), f, a...)
			return false
		}
		ps, ok := pieces(x, p)
		if !ok || len(ps) != 1 || ps[0].Loop == nil {
			return bad("%s collects %s instead of the content of each line in order", name, p)
		}
		l := ps[0].Loop
		if l.Over != node {
			return bad("%s does not go over its lines but over %s", name, termStr(l.Over))
		}
		if l.left(e.St) {
			return bad("%s can leave out lines", name)
		}
		kept := false
		for _, it := range l.It {
			want := m.of(l.Elem)
			switch {
			case it.Same:
				if it.St.IsNil(want) != 1 {
					return bad("%s can lose a line with content (%s)", name, it.St.Path())
				}
			case len(it.Parts) == 1 && it.Parts[0].One == want:
				kept = true
				if it.St.IsNil(want) != 0 {
					return bad("%s keeps lines without content", name)
				}
			default:
				return bad("%s turns a line into something other than its content", name)
			}
		}
		if !kept {
			return bad("%s keeps no line", name)
		}
		return true
	}
	// early: leaving a loop by a failure must be a failure
	check := func(name string, f func(x *flow.Exec, e exitRec, node *flow.Term)) {
		fn := m.method(name)
		node := flow.Sym("param", "node", fn.Params[1].Type())
		x, exits := c.run(&flow.Rule{Call: call, Keep: loopSyms}, fn, []*flow.Term{recv, node}, nil)
		n := 0
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				continue
			}
			n++
			c.Obl("successful evaluation paths")
			f(x, e, node)
		}
		if n == 0 {
			c.V("nosuccess:"+name, fn.Pos(), "%s never succeeds", name)
		}
		c.Sample("%s: %d successful paths", name, n)
	}
	check("VisitString", func(x *flow.Exec, e exitRec, node *flow.Term) {
		if got, want := final(e), m.join(r0, flow.Iface(strT, node)); got != want {
			c.VP("string", e.Pos, e.St.Path(), "text results in %s instead of %s", got, want)
		}
	})
	check("VisitSequence", func(x *flow.Exec, e exitRec, node *flow.Term) {
		bad := func(f string, a ...any) { c.VP("sequence", e.Pos, e.St.Path(), f, a...) }
		got := final(e)
		if got == r0 && e.St.Decide(flow.Eq(flow.Len(node), flow.Int(0))) == 1 {
			return
		}
		ps, ok := m.joinPieces(x, e.St, got, 0)
		if !ok {
			bad("the result %s is not the previous result joined with every part in order", got)
			return
		}
		if len(ps) != 2 || ps[0].One != r0 || ps[1].Loop == nil {
			bad("the result %s is not the previous result joined with every part", got)
			return
		}
		l := ps[1].Loop
		if l.Over != node {
			bad("the loop does not go over the parts but over %s", termStr(l.Over))
			return
		}
		if l.left(e.St) {
			bad("parts can be left out")
		}
		for _, it := range l.It {
			want := m.of(l.Elem)
			if it.Same && it.St.IsNil(want) == 1 {
				continue
			}
			if len(it.Parts) != 1 || it.Parts[0].One != want {
				bad("a part of a sequence is not added exactly once (%s)", it.St.Path())
			}
		}
	})
	para := func(name, typ string, unwrapBlocks bool) {
		pt := c.P.named(mod, typ)
		seen := map[string]bool{}
		check(name, func(x *flow.Exec, e exitRec, node *flow.Term) {
			bad := func(f string, a ...any) { c.VP("outcome:"+name, e.Pos, e.St.Path(), f, a...) }
			got := final(e)
			// find the list among the pieces
			parts := []*flow.Term{got}
			if got.Op == "joined" {
				parts = got.Args
			}
			if got == r0 {
				// nothing: some list of lines must be empty
				okEmpty := false
				for sym, sl := range x.SymLoop {
					sum := x.LoopSums[sl]
					if sum != nil && sum.Over == node && e.St.Decide(flow.Eq(flow.Len(sym), flow.Int(0))) == 1 && isContentList(sym.Typ, m.con) {
						okEmpty = true
						lines(name, x, sym, node, e)
					}
				}
				if e.St.Decide(flow.Eq(flow.Len(node), flow.Int(0))) == 1 {
					okEmpty = true
				}
				if !okEmpty {
					bad("%s can add nothing although lines have content", name)
				}
				seen["empty"] = true
				return
			}
			if len(parts) == 1 && e.St.IsNil(r0) == 1 {
				parts = []*flow.Term{r0, parts[0]}
			}
			if len(parts) != 2 || parts[0] != r0 {
				bad("%s results in %s, which loses or repeats something", name, got)
				return
			}
			v := parts[1]
			if v.Op == "iface" && types.Identical(v.Typ, pt) {
				p := v.Args[0]
				if !lines(name, x, p, node, e) {
					return
				}
				seen["whole"] = true
				if !unwrapBlocks {
					return
				}
				// neither empty nor a single block
				if consistent(e.St, flow.Eq(flow.Len(p), flow.Int(0))) != nil {
					bad("%s without content adds an empty paragraph", name)
				}
				if s1 := consistent(e.St, flow.Eq(flow.Len(p), flow.Int(1))); s1 != nil {
					if isFlow(s1, flow.Elem(p, flow.Int(0), m.con)) != 1 {
						bad("a single piece of block content can stay wrapped in a paragraph")
					}
				}
				return
			}
			if v.Op == "elem" && unwrapBlocks {
				if i, ok := v.Args[1].IsInt(); !ok || i != 0 {
					bad("%s results in %s", name, got)
					return
				}
				p := v.Args[0]
				if !lines(name, x, p, node, e) {
					return
				}
				if e.St.Decide(flow.Eq(flow.Len(p), flow.Int(1))) != 1 {
					bad("only the first of several lines may be kept")
				}
				if isFlow(e.St, v) != 0 {
					bad("flow content can lose its paragraph")
				}
				seen["block"] = true
				return
			}
			bad("%s results in %s", name, got)
		})
		want := []string{"whole"}
		if unwrapBlocks {
			want = []string{"whole", "block", "empty"}
		}
		for _, w := range want {
			if !seen[w] {
				c.V("missing:"+name+":"+w, m.method(name).Pos(), "%s never has the outcome %q", name, w)
			}
		}
	}
	para("VisitParagraph", "Paragraph", true)
	para("VisitPreformatted", "Preformatted", false)

	// the evaluated result becomes the body
	secT := c.P.named(mod, "Section")
	for _, name := range []string{"EvaluateFile", "EvaluateNode"} {
		fn := c.meth(mod+"/load", "Processor", name)
		kept := false
		_, exits := c.run(&flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if _, v := m.visit(ci); v != nil {
				s.AddSticky("visited", unwrap(v), unwrap(s.LoadField(unwrap(v), m.sec, types.NewPointer(secT))))
				if old := s.LoadField(unwrap(v), m.res, m.con); !old.IsNil() {
					c.V("start:"+name, ci.Pos, "evaluation starts with %s already in the result", old)
				}
			}
			return call(x, s, ci)
		}}, fn, nil, nil)
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				continue
			}
			c.Obl("evaluated sections")
			sec := unwrap(e.Res[0])
			vs := e.St.Items("visited")
			if len(vs) != 1 {
				c.VP("body:"+name, e.Pos, e.St.Path(), "%s evaluates %d nodes for one section", name, len(vs))
				continue
			}
			if vs[0].Terms[1] != sec {
				c.VP("body:"+name, e.Pos, e.St.Path(), "%s evaluates in another section than the one returned", name)
			}
			res := e.St.Load(flow.FieldAddr(vs[0].Terms[0], m.res, m.con), m.con)
			body := e.St.LoadField(sec, "Body", m.con)
			if e.St.IsNil(res) == 1 {
				continue
			}
			if body != res {
				c.VP("body:"+name, e.Pos, e.St.Path(), "%s can return a section whose body is %s instead of the evaluated content", name, body)
			} else {
				kept = true
			}
		}
		if !kept {
			c.V("body-never:"+name, fn.Pos(), "%s never sets the body", name)
		}
	}
	checkAppend(c, m)
	c.Need("successful evaluation paths", 4)
	c.Need("evaluated sections", 2)
	c.Need("results of joining", 1)
}

func isContentList(t, con types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), con)
}

// checkAppend: joining adds every item after what is there.
func checkAppend(c *C, m *evalModel) {
	fn := m.appnd
	seqT := c.P.named(mod, "Sequence")
	first := flow.Sym("param", "first", fn.Params[0].Type())
	rest := flow.Sym("param", "rest", fn.Params[1].Type())
	x, exits := c.run(nil, fn, []*flow.Term{first, rest}, nil)
	// flat: the items of content, as a normalised list, or nil if not recognised
	flat := func(s *flow.State, t *flow.Term) *flow.Term {
		var f func(t *flow.Term) *flow.Term
		f = func(t *flow.Term) *flow.Term {
			if t.IsNil() || s.IsNil(t) == 1 {
				return flow.Cat(nil)
			}
			if t.Op == "iface" && types.Identical(t.Typ, seqT) {
				return f2(s, t.Args[0])
			}
			if t.Typ != nil {
				if _, ok := t.Typ.Underlying().(*types.Slice); ok {
					return f2(s, t)
				}
			}
			if s.Decide(flow.TypeIs(t, seqT)) == 1 {
				return flow.Cat(nil, flow.Sym("spread", "", nil, unseq(flow.TypeAssert(t, seqT))))
			}
			return flow.Cat(nil, flow.One(t))
		}
		return f(t)
	}
	for _, e := range exits {
		bad := func(f string, a ...any) { c.VP("append", e.Pos, e.St.Path(), f, a...) }
		c.Obl("results of joining")
		res := e.Res[0]
		if res == first && e.St.Decide(flow.Eq(flow.Len(rest), flow.Int(0))) == 1 {
			continue
		}
		if res.Op == "iface" {
			res = res.Args[0]
		}
		rec := x.Rec[res]
		if rec == nil {
			// built in one go
			want := flow.Cat(nil, flat(e.St, first), flow.Sym("spread", "", nil, rest))
			if got := flat(e.St, e.Res[0]); got != want {
				bad("joining yields %s", e.Res[0])
			}
			continue
		}
		for i := range rec.Init {
			if i != first && unwrap(i) != first && flat(e.St, i) != flat(e.St, first) {
				bad("joining starts from %s instead of the first content", i)
			}
		}
		sum := x.LoopSums[x.SymLoop[res]]
		over, elem, _ := sumElem(x, sum)
		if over != rest {
			bad("joining does not go over all given content")
			continue
		}
		if e.St.Has("left:" + x.SymLoop[res]) {
			bad("joining can stop early")
		}
		for _, it := range sum.On(e.St) {
			c.Obl("ways of joining one item")
			step := it.Steps[res]
			if step == nil {
				step = res
			}
			s := it.St
			if s.IsNil(elem) == 1 {
				if step != res {
					c.VP("append-item", sum.Pos, s.Path(), "joining absent content changes the result to %s", step)
				}
				continue
			}
			if s.IsNil(elem) < 0 && s.IsNil(res) != 1 {
				c.VP("append-nil", sum.Pos, s.Path(), "absent content is put into the joined content")
			}
			// joining the item itself (as one item), or its items when there is nothing yet
			before := flat(s, res)
			got := flat(s, step)
			want1 := flow.Cat(nil, before, flow.One(elem))
			want2 := flow.Cat(nil, before, flow.Cat(nil, flat(s, elem)))
			if got != want1 && got != want2 && flow.Cat(nil, got) != want2 {
				c.VP("append-item", sum.Pos, s.Path(), "joining %s with %s yields %s: items are lost, repeated or reordered", res, elem, step)
			}
		}
	}
	if len(exits) == 0 {
		c.V("append", fn.Pos(), "joining never returns")
	}
}

// f2 normalises a list: clipped or complete slices are the list itself.
func f2(s *flow.State, l *flow.Term) *flow.Term {
	l = unseq(l)
	if l.Op == "cat" {
		out := []*flow.Term{}
		for _, p := range l.Args {
			if p.Op == "spread" {
				out = append(out, f2(s, p.Args[0]))
			} else {
				out = append(out, p)
			}
		}
		return flow.Cat(nil, out...)
	}
	return flow.Cat(nil, flow.Sym("spread", "", nil, l))
}

func unseq(l *flow.Term) *flow.Term {
	for l.Op == "slice" && isInt(l.Args[1], 0) && l.Args[2].Op == "len" && l.Args[2].Args[0] == l.Args[0] {
		l = l.Args[0]
	}
	return l
}

var _ = token.NoPos
