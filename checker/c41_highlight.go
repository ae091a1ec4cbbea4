package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

const chromaPkg = mod + "/chroma"

func init() {
	register(checkDef{
		ID: "C41", Title: "Highlighted code shows the code unchanged",
		Rule:  "The highlighting functions of the chroma plugin are summarised symbolically. What is tokenised must be the whole text of the code given, what is formatted all of its tokens and what is shown all of the formatted output, in a block exactly if the code is one. The list of parts must go through every transformer, with other parts kept in place and each remaining string wrapped as it is, once, as raw output. A transformer must cut its text without gaps or overlaps: slices of the text are followed from where the last ended, with the end of a match remembered exactly, every match being handed over and what is between and after them kept unless it is known to be empty.",
		Trust: []string{"chroma shows the text it is given", "matches are found in order and do not overlap"},
		Run:   runC41,
	})
}

type highlight struct {
	c   *C
	str types.Type // booklit.String
	sty *types.Named
}

func runC41(c *C) {
	h := &highlight{c: c, str: c.P.named(mod, "String"), sty: c.P.named(mod, "Styled")}
	if h.str == nil || h.sty == nil {
		c.V("anchor:content", 0, "there are no strings or styled content any more")
		return
	}
	cut := c.meth(chromaPkg, "Transformer", "TransformAll")
	whole := c.meth(chromaPkg, "Plugin", "SyntaxTransform")
	h.tiles(cut)
	h.whole(whole, cut)
	h.plain(c.meth(chromaPkg, "Plugin", "Syntax"), whole)
	c.Need("ways to cut a text", 2)
	c.Need("highlighted results", 2)
	c.Need("plain calls", 1)
}

// nothing reports whether a text has nothing from a position to another in a
// state.
func nothing(s *flow.State, str, from, to *flow.Term) bool {
	if from == to || s.Decide(flow.Lt(from, to)) == 0 || s.Decide(flow.Eq(from, to)) == 1 {
		return true
	}
	for f, v := range s.Facts {
		t := f
		if t.Op == "not" {
			t, v = t.Args[0], !v
		}
		if !v || t.Op != "eq" || len(t.Args) != 2 {
			continue
		}
		for i, a := range t.Args {
			b := t.Args[1-i]
			if a.Op == "len" {
				if !isInt(b, 0) {
					continue
				}
				a = a.Args[0]
			} else if e, ok := b.IsStr(); !ok || e != "" {
				continue
			}
			if a.Op != "slice" || len(a.Args) != 3 || unwrap(a.Args[0]) != str {
				continue
			}
			lo, hi := a.Args[1], a.Args[2]
			if lo.IsNil() {
				lo = flow.Int(0)
			}
			if hi.IsNil() {
				hi = flow.Len(str)
			}
			if lo == from && hi == to {
				return true
			}
		}
	}
	return false
}

// tiles: the parts a transformer makes of a text cover it.
func (h *highlight) tiles(fn *ssa.Function) {
	c := h.c
	args := c.params(fn)
	self, str := args[0], args[len(args)-1]
	pattern := flow.Field(self, "Pattern", fieldTypeOf(fn.Params[0].Type(), "Pattern"))
	transform := flow.Field(self, "Transform", fieldTypeOf(fn.Params[0].Type(), "Transform"))
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == nil && ci.Method == nil && len(ci.Args) == 1 && ci.Func == transform {
			return one(s, flow.Sym("pure", "transformed", ci.Result, ci.Args[0])), true
		}
		return nil, false
	}
	x, exits := c.run(r, fn, args, nil)
	for _, e := range exits {
		c.Obl("ways to cut a text")
		s := e.St
		bad := func(f string, a ...any) { c.VP("cut:"+fn.Name(), e.Pos, s.Path(), fn.Name()+" "+f, a...) }
		ps, ok := pieces(x, e.Res[0])
		if !ok {
			bad("yields %s", e.Res[0])
			continue
		}
		// follow the parts from a position
		var follow func(s *flow.State, at *flow.Term, ps []piece, m [2]*flow.Term, done *int) (*flow.Term, bool)
		follow = func(s *flow.State, at *flow.Term, ps []piece, m [2]*flow.Term, done *int) (*flow.Term, bool) {
			for _, p := range ps {
				if p.One == nil {
					bad("puts a list in between")
					return nil, false
				}
				t, isTr := unwrap(p.One), false
				if t.Op == "pure" && t.Str == "transformed" {
					t, isTr = unwrap(t.Args[0]), true
				}
				for t.Op == "conv" {
					t = unwrap(t.Args[0])
				}
				if t == str && !isTr && isInt(at, 0) {
					at = flow.Len(str)
					continue
				}
				if t.Op != "slice" || unwrap(t.Args[0]) != str || len(t.Args) != 3 {
					bad("includes %s", p.One)
					return nil, false
				}
				from, to := t.Args[1], t.Args[2]
				if to.IsNil() {
					to = flow.Len(str)
				}
				if isTr {
					*done++
					if from != m[0] || to != m[1] {
						bad("transforms %s, which is not a match", t)
						return nil, false
					}
					if !nothing(s, str, at, from) {
						bad("can lose what is before a match (%s)", s.Path())
						return nil, false
					}
				} else if from != at {
					bad("goes on at %s instead of %s", from, at)
					return nil, false
				}
				at = to
			}
			return at, true
		}
		at := flow.Int(0)
		matched := false
		for i, p := range ps {
			if p.Loop == nil {
				if at, ok = follow(s, at, []piece{p}, [2]*flow.Term{}, new(int)); !ok {
					break
				}
				continue
			}
			l := p.Loop
			if matched || i > 0 || l.Over == nil || flow.CallName(l.Over) != "(*regexp.Regexp).FindAllStringIndex" || l.Over.Args[0] != pattern || unwrap(l.Over.Args[1]) != str || !isNeg(l.Over.Args[2]) || l.left(s) {
				bad("does not go over all matches in the text")
				ok = false
				break
			}
			matched = true
			// where the last match ended
			var last *flow.Term
			for t, key := range x.SymLoop {
				if rec := x.Rec[t]; key == l.Loop && rec != nil && rec.Init[flow.Int(0)] && len(rec.Init) == 1 && t.Typ != nil && isIntT(t.Typ) && !rec.Steps[flow.Add(t, flow.Int(1))] {
					last = t
				}
			}
			if last == nil {
				bad("does not remember where the last match ended")
				ok = false
				break
			}
			m := [2]*flow.Term{flow.Elem(l.Elem, flow.Int(0), types.Typ[types.Int]), flow.Elem(l.Elem, flow.Int(1), types.Typ[types.Int])}
			for _, it := range l.It {
				n := 0
				end, good := follow(it.St, last, it.Parts, m, &n)
				if !good {
					ok = false
					break
				}
				if n != 1 {
					bad("transforms a match %d times", n)
					ok = false
				}
				for _, raw := range l.Sum.Iters {
					if raw.St == it.St && raw.Steps[last] != end {
						bad("remembers %s instead of %s as the end of a match", termStr(raw.Steps[last]), end)
						ok = false
					}
				}
			}
			at = last
		}
		if !ok || at == nil {
			continue
		}
		if end := flow.Len(str); !nothing(s, str, at, end) && !(isInt(at, 0) && s.Decide(flow.Eq(str, flow.StrConst(""))) == 1) {
			bad("can lose what is after the last match")
			continue
		}
		if !matched {
			// without a loop there must be no match
			none := false
			for f, v := range s.Facts {
				if f.Has(func(t *flow.Term) bool { return flow.CallName(t) == "(*regexp.Regexp).FindAllStringIndex" }) && f.Op == "eq" && v {
					none = true
				}
			}
			if !none {
				bad("does not transform any match")
			}
		}
	}
}

func isNeg(t *flow.Term) bool {
	n, ok := t.IsInt()
	return ok && n < 0
}

func (h *highlight) isString(s *flow.State, t *flow.Term) int {
	u := t
	if u.Op == "iface" && u.Typ != nil {
		return b2i(types.Identical(u.Typ, h.str))
	}
	return isTypeTest(s, u, h.str)
}

// asIs: the same content, perhaps taken out of its interface and put back.
func asIs(t, elem *flow.Term) bool {
	for {
		switch {
		case t == elem:
			return true
		case t.Op == "iface" || t.Op == "ta" || t.Op == "conv" && len(t.Args) == 1:
			t = t.Args[0]
		case elem.Op == "iface" || elem.Op == "ta":
			elem = elem.Args[0]
		default:
			return false
		}
	}
}

// raw: the element wrapped as raw output.
func (h *highlight) raw(s *flow.State, t, elem *flow.Term) bool {
	if t.Op != "iface" || !types.Identical(t.Typ, h.sty) {
		return false
	}
	v := t.Args[0]
	sty, _ := get(s, v, "Style", types.Typ[types.String]).IsStr()
	return sty == "raw-html" && asIs(get(s, v, "Content", h.c.P.named(mod, "Content")), elem)
}

func (h *highlight) whole(fn, cut *ssa.Function) {
	c := h.c
	conI := c.P.named(mod, "Content")
	args := c.params(fn)
	var code, style, lang, trs *flow.Term
	for _, a := range args[1:] {
		switch {
		case types.Identical(a.Typ, conI):
			code = a
		case isStr(a.Typ):
			lang = a
		default:
			if _, ok := a.Typ.Underlying().(*types.Slice); ok {
				trs = a
			} else {
				style = a
			}
		}
	}
	if code == nil || style == nil || lang == nil || trs == nil {
		c.V("anchor:"+fn.Name(), fn.Pos(), "%s is given other things", fn.Name())
		return
	}
	text := flow.Sym("pure", "text", types.Typ[types.String], code)
	flowing := flow.Sym("pure", "isflow", types.Typ[types.Bool], code)
	var wraps []*flow.Term
	r := &flow.Rule{Keep: func(t *flow.Term) bool {
		return loopSyms(t) || t == flowing
	}}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		switch {
		case ci.Callee == cut:
			return one(s, flow.Sym("pure", "transformed", cut.Signature.Results().At(0).Type(), ci.Args...)), true
		case strings.HasSuffix(ci.Name, ").IsFlow") && len(ci.Args) == 1 && ci.Args[0] == code:
			return one(s, flowing), true
		case strings.HasSuffix(ci.Name, "Content).String") && len(ci.Args) == 1 && ci.Args[0] == code:
			return one(s, text), true
		case strings.HasSuffix(ci.Name, ").Tokenise") && ci.Method != nil:
			c.Obl("texts tokenised")
			if ci.Args[len(ci.Args)-1] != text {
				c.VP("tokenised", ci.Pos, s.Path(), "%s is tokenised instead of the text of the code", ci.Args[len(ci.Args)-1])
			}
			if lx := ci.Args[0]; lx.Op != "global" && s.IsNil(lx) != 0 {
				c.VP("lexer", ci.Pos, s.Path(), "there may be no lexer for the language")
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				o.St.AddSticky("tokens", o.Res)
			}
			return outs, true
		case strings.Contains(ci.Name, "formatters/html.PreventSurroundingPre"):
			return one(s, flow.Sym("pure", "nopre", ci.Result, ci.Args...)), true
		case strings.HasSuffix(ci.Name, "formatters/html.New"):
			return one(s, flow.Sym("pure", "formatter", ci.Result, ci.Args...)), true
		case strings.HasSuffix(ci.Name, "Formatter).Format") && len(ci.Args) == 4:
			fm := unwrap(ci.Args[0])
			nopre := 0
			if fm.Op == "pure" && fm.Str == "formatter" {
				if ps, ok := pieces(x, fm.Args[0]); ok {
					for _, p := range ps {
						if p.One != nil && p.One.Op == "pure" && p.One.Str == "nopre" {
							nopre++
							v := s.Decide(p.One.Args[0])
							if p.One.Args[0] != flowing && (v == -1 || v != s.Decide(flowing)) {
								c.VP("pre", ci.Pos, s.Path(), "the code is shown as a block if not %s", p.One.Args[0])
							}
						}
					}
				}
			}
			if nopre == 0 && s.Decide(flowing) != 0 {
				c.VP("pre", ci.Pos, s.Path(), "code within text is shown as a block")
			}
			if ci.Args[2] != style {
				c.VP("style", ci.Pos, s.Path(), "the code is shown in style %s", ci.Args[2])
			}
			ok := false
			for _, i := range s.Items("tokens") {
				it := ci.Args[3]
				ok = ok || it.Op == "result" && it.Args[0] == i.Terms[0] && it.Str == "0"
			}
			if !ok {
				c.VP("formatted", ci.Pos, s.Path(), "%s is shown instead of the tokens of the code", ci.Args[3])
			}
			outs := forkErr(x, s, ci)
			if b := unwrap(ci.Args[1]); b.Op == "alloc" {
				for _, o := range outs {
					a := flow.FieldAddr(b, "built", types.Typ[types.String])
					cur := o.St.Load(a, types.Typ[types.String])
					if cur.Op == "field" || cur.Op == "zero" || cur.IsNil() {
						cur = flow.StrConst("")
					}
					o.St.StoreTo(a, flow.StrCat(cur, flow.Sym("pure", "shown", types.Typ[types.String])))
				}
			}
			return outs, true
		}
		return c.builder(x, s, ci)
	}
	r.MapUpdate = func(x *flow.Exec, s *flow.State, m, k, v *flow.Term, i ssa.Instruction) {
		s.AddSticky("partial", m, k, v)
	}
	r.Store = func(x *flow.Exec, s *flow.State, addr, v *flow.Term, i ssa.Instruction) {
		if addr.Op != "ia" || addr.Args[0].Op == "alloc" || addr.Args[0].Op == "make" || addr.Args[0].Typ == nil {
			return
		}
		if sl, ok := addr.Args[0].Typ.Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), conI) {
			return
		}
		el := flow.Elem(addr.Args[0], addr.Args[1], conI)
		if h.raw(s, v, el) {
			s.Add("wrapped", addr.Args[0], addr.Args[1])
			wraps = append(wraps, addr.Args[0])
			return
		}
		c.VP("replaced", i.Pos(), s.Path(), "a part of the highlighted code is replaced by %s", v)
	}
	x, exits := c.run(r, fn, args, nil)
	shown := func(t *flow.Term) bool {
		t = unwrap(t)
		return t.Op == "pure" && t.Str == "shown"
	}
	// what a list of parts shows: "" all of it, else what is wrong; the second
	// result tells whether its strings are wrapped
	var parts func(s *flow.State, t *flow.Term, depth int) (string, bool, bool)
	parts = func(s *flow.State, t *flow.Term, depth int) (string, bool, bool) {
		t = unwrap(t)
		wrapped, transformed := false, false
		for _, w := range wraps { // wrapped in place
			if w != t {
				continue
			}
			for key, sum := range x.LoopSums {
				over, el, idx := sumElem(x, sum)
				if over != t || s.Has("left:"+key) {
					continue
				}
				ok := len(sum.Iters) > 0
				for _, it := range sum.On(s) {
					did := false
					for _, i := range it.St.Items("wrapped") {
						did = did || i.Terms[0] == t && i.Terms[1] == idx
					}
					switch h.isString(it.St, el) {
					case 1:
						ok = ok && did
					case 0:
						ok = ok && !did
					default:
						ok = false
					}
				}
				wrapped = wrapped || ok
			}
			if !wrapped {
				return "does not wrap every string as it is", false, false
			}
		}
		if rec := x.Rec[t]; rec != nil && t.Op == "loopphi" { // transformed one after the other
			key := x.SymLoop[t]
			sum := x.LoopSums[key]
			if sum != nil {
				if over, el, _ := sumElem(x, sum); over == trs && !s.Has("left:"+key) && len(rec.Init) == 1 {
					for i := range rec.Init {
						if w, _, _ := parts(s, i, depth+1); w != "" {
							return w, false, false
						}
					}
					for _, it := range sum.On(s) {
						st := it.Steps[t]
						if st == nil || st == t {
							return "can leave out a transformer", false, false
						}
						ps, ok := pieces(x, st)
						if !ok || len(ps) != 1 || ps[0].Loop == nil || ps[0].Loop.Over != t || ps[0].Loop.left(it.St) {
							return "does not take all parts to the next transformer", false, false
						}
						l := ps[0].Loop
						for _, p := range l.It {
							if p.Same || len(p.Parts) != 1 {
								return "loses or repeats parts", false, false
							}
							q := p.Parts[0]
							switch is := h.isString(p.St, l.Elem); {
							case q.Spread != nil && q.Spread.Op == "pure" && q.Spread.Str == "transformed" && is == 1 && asIs(q.Spread.Args[1], l.Elem) && sameVal(p.St, q.Spread.Args[0], el, el.Typ):
							case q.One != nil && asIs(q.One, l.Elem) && is == 0:
							default:
								return "does not transform every string and keep every other part", false, false
							}
						}
					}
					return "", wrapped, true
				}
			}
		}
		ps, ok := pieces(x, t)
		if !ok || depth > 3 {
			return "is " + t.String(), false, false
		}
		if len(ps) == 1 && ps[0].One != nil {
			if shown(ps[0].One) {
				return "", wrapped, transformed
			}
			if v := ps[0].One; v.Op == "iface" && types.Identical(v.Typ, h.sty) {
				return "is wrapped before it is transformed", false, false
			}
		}
		if len(ps) == 1 && ps[0].Loop != nil && ps[0].Loop.Over != nil && !ps[0].Loop.left(s) {
			l := ps[0].Loop
			w, _, tr := parts(s, l.Over, depth+1)
			if w != "" {
				return w, false, false
			}
			for _, p := range l.It {
				good := false
				if !p.Same && len(p.Parts) == 1 && p.Parts[0].One != nil {
					switch h.isString(p.St, l.Elem) {
					case 1:
						good = h.raw(p.St, p.Parts[0].One, l.Elem)
					case 0:
						good = asIs(p.Parts[0].One, l.Elem)
					}
				}
				if !good {
					return "does not wrap every string as it is", false, false
				}
			}
			return "", true, tr
		}
		return "is " + t.String(), false, false
	}
	for _, e := range exits {
		s := e.St
		if e.Res[0].IsNil() {
			continue
		}
		c.Obl("highlighted results")
		bad := func(f string, a ...any) { c.VP("shown", e.Pos, s.Path(), "highlighted code "+f, a...) }
		if e.Res[0].Op != "iface" || !types.Identical(e.Res[0].Typ, h.sty) {
			bad("is %s", e.Res[0])
			continue
		}
		v := e.Res[0].Args[0]
		want := map[int]string{1: "code-flow", 0: "code-block"}[s.Decide(flowing)]
		if st, ok := get(s, v, "Style", types.Typ[types.String]).IsStr(); !ok || st != want {
			bad("has style %s without being of that kind", get(s, v, "Style", types.Typ[types.String]))
		}
		blk := get(s, v, "Block", types.Typ[types.Bool])
		if b, ok := blk.IsBool(); blk != flow.Not(flowing) && !(ok && b2i(b) == 1-s.Decide(flowing)) && !(blk.Op == "zero" && s.Decide(flowing) == 1) && !(s.Decide(blk) != -1 && s.Decide(blk) == 1-s.Decide(flowing)) {
			bad("is a block if %s", blk)
		}
		m := get(s, v, "Partials", fieldTypeOf(h.sty, "Partials"))
		named := false
		for _, i := range s.Items("partial") {
			k, _ := i.Terms[1].IsStr()
			named = named || i.Terms[0] == m && k == "Language" && asIs(i.Terms[2], lang)
		}
		if !named {
			bad("does not tell its language")
		}
		w, wrapped, transformed := parts(s, get(s, v, "Content", conI), 0)
		switch {
		case w != "":
			bad("%s", w)
		case !wrapped:
			bad("is not output as it is")
		case !transformed && s.Decide(flow.Eq(flow.Len(trs), flow.Int(0))) != 1:
			bad("does not go through the transformers")
		}
	}
}

// plain: highlighting without transformers.
func (h *highlight) plain(fn, whole *ssa.Function) {
	c := h.c
	args := c.params(fn)
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee != whole {
			return nil, false
		}
		c.Obl("plain calls")
		for i, a := range ci.Args {
			if (i == 1 || i == 2) && a != args[i] {
				c.VP("plain", ci.Pos, s.Path(), "%s is highlighted instead of %s", a, args[i])
			}
		}
		names := args[len(args)-1]
		given := s.Decide(flow.Lt(flow.Int(0), flow.Len(names)))
		chosen := flow.CallName(ci.Args[3]) == "github.com/alecthomas/chroma/styles.Get" && ci.Args[3].Args[0] == flow.Elem(names, flow.Int(0), types.Typ[types.String])
		if given != 0 && !chosen {
			c.VP("plain style", ci.Pos, s.Path(), "a style given may not be used")
		}
		if given != 1 && (chosen || ci.Args[3].IsNil()) {
			c.VP("plain style", ci.Pos, s.Path(), "there may be no style")
		}
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			o.St.AddSticky("highlighted", o.Res)
		}
		return outs, true
	}
	_, exits := c.run(r, fn, args, nil)
	for _, e := range exits {
		ok := e.Res[0].IsNil() && e.St.IsNil(e.Res[1]) == 0
		for _, i := range e.St.Items("highlighted") {
			ok = ok || e.Res[0].Op == "result" && e.Res[0].Args[0] == i.Terms[0]
		}
		if !ok {
			c.VP("plain", e.Pos, e.St.Path(), "%s yields %s instead of the highlighted code", fn.Name(), e.Res[0])
		}
	}
}
