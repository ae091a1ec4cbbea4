package main

import (
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C28", Title: "A section has one title, and its tags follow from it",
		Rule:  "SetTitle is summarised with and without tag names: afterwards the section's tags are exactly one per name, in order (or one named after the title without its auxiliary parts), with the section, title and location given, the primary tag is the first of them, and title and location are set. SetTag and SetTagAnchored append exactly one tag. The title function succeeds only for a section without a title and fails otherwise with both places and without changing anything. The default name is taken apart into the rewriting steps it is made by (case, fixed texts, character classes of constant patterns), whose composition is compared for every pair of characters. No other function sets titles, primary tags or tags.",
		Trust: []string{"text content is empty exactly if the title was not set (sections start with the empty title, checked)"},
		Run:   runC28,
	})
}

// emptyTitle is the fact that a title is the empty one.
func emptyTitle(c *C, t *flow.Term) *flow.Term {
	n := c.P.named(mod, "String")
	return flow.Eq(t, flow.Iface(n, flow.Sym("global", mod+".Empty", n)))
}

func runC28(c *C) {
	b := newBasePlugin(c)
	conT := c.P.named(mod, "Content")
	tagN := c.P.named(mod, "Tag")
	strT := types.Typ[types.String]
	strip := c.fnc(mod, "StripAux")
	locT := fieldTypeOf(b.secN, "TitleLocation")
	tagsT := fieldTypeOf(b.secN, "Tags")
	sf := func(s *flow.State, sec *flow.Term, f string) *flow.Term {
		return s.LoadField(sec, f, fieldTypeOf(b.secN, f))
	}
	stripped := func(t *flow.Term) *flow.Term { return flow.Sym("pure", "stripaux", conT, t) }
	params := func(fn *ssa.Function, names ...string) []*flow.Term {
		if len(fn.Params) != len(names) {
			c.V("anchor:"+fn.Name(), fn.Pos(), "%s no longer takes %d arguments", fn.Name(), len(names)-1)
			panic(abort{})
		}
		out := []*flow.Term{}
		for i, p := range fn.Params {
			out = append(out, flow.Sym("param", names[i], p.Type()))
		}
		return out
	}
	foreignStores := func(what string, con *flow.Term) func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
		return b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base != con {
				c.VP("store:"+what, instr.Pos(), s.Path(), "%s sets %s of %s", what, field, base)
			}
		})
	}
	setTitle := c.meth(mod, "Section", "SetTitle")
	for _, named := range []bool{true, false} {
		a := params(setTitle, "section", "title", "location", "tags")
		con, title, loc, tags := a[0], a[1], a[2], a[3]
		r := &flow.Rule{Keep: loopSyms, Store: foreignStores("SetTitle", con), Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == strip {
				return one(s, stripped(ci.Args[0])), true
			}
			return nil, false
		}}
		x, exits := c.run(r, setTitle, a, func(s *flow.State) {
			s.Assume(flow.Eq(flow.Len(tags), flow.Int(0)), !named)
		})
		if len(exits) == 0 {
			c.V("settitle", setTitle.Pos(), "SetTitle never returns")
		}
		for _, e := range exits {
			c.Obl("outcomes of setting a title")
			bad := func(f string, as ...any) { c.VP("settitle", e.Pos, e.St.Path(), f, as...) }
			if got := sf(e.St, con, "Title"); got != title {
				bad("the title becomes %s", got)
			}
			if got := sf(e.St, con, "TitleLocation"); !sameVal(e.St, got, loc, locT) {
				bad("the title's location becomes %s", got)
			}
			tag := func(name *flow.Term) map[string]madeField {
				return map[string]madeField{"Name": is(name), "Title": is(title), "Section": is(con), "Location": is(loc)}
			}
			defaultName := func(s *flow.State, n *flow.Term) string {
				m := n.Subst(map[*flow.Term]*flow.Term{stripped(title): flow.StrConst("title")})
				if m == n {
					return "is " + n.String() + ", which does not follow from the title without its auxiliary parts"
				}
				why := ""
				m.Walk(func(u *flow.Term) {
					if u == title || u == con || u.Op == "loopphi" || u.Op == "mphi" {
						why = "depends on " + u.String()
					}
				})
				if why != "" {
					return why
				}
				// what it makes of the text of the title
				origin := n
				n.Walk(func(u *flow.Term) {
					if u.Op != "pure" && u.Op != "call" && u.Op != "result" && u.Op != "invoke" || len(u.Args) == 0 || unwrap(u.Args[0]) != stripped(title) {
						return
					}
					origin = u
				})
				if steps, ok := c.rewrites(n, origin); ok && origin != n {
					c.Obl("derivations of a tag")
					return sanitizes(steps)
				}
				c.Obl("derivations of a tag in an unknown way")
				return ""
			}
			list := sf(e.St, con, "Tags")
			ps, ok := pieces(x, list)
			if !ok || len(ps) != 1 {
				bad("the section's tags become %s", list)
				continue
			}
			p := ps[0]
			first := (*flow.Term)(nil)
			switch {
			case p.Loop != nil:
				l := p.Loop
				over := []piece{{Spread: tags}}
				if l.Over != tags || !named {
					over, ok = pieces(x, termOr(l.Over))
				}
				if !named { // there are none to go before the default one
					over = slices.DeleteFunc(over, func(p piece) bool { return p.Spread == tags })
				}
				if !ok || len(over) != 1 || named != (over[0].Spread == tags) || !named && over[0].One == nil {
					bad("the tags are made from %s", termStr(l.Over))
					continue
				}
				if !named {
					if why := defaultName(e.St, over[0].One); why != "" {
						bad("the default tag's name %s", why)
					}
				}
				if l.left(e.St) {
					bad("tags can be left out")
				}
				for _, it := range l.It {
					if it.Same || len(it.Parts) != 1 || it.Parts[0].One == nil {
						bad("a name does not give exactly one tag (%s)", it.St.Path())
						continue
					}
					if why := b.made(x, it.St, it.Parts[0].One, "Tag", tag(l.Elem)); why != "" {
						bad("a tag %s", why)
					}
				}
				first = flow.Elem(l.Over, flow.Int(0), strT)
			case p.One != nil && !named:
				name := get(e.St, p.One, "Name", strT)
				if why := defaultName(e.St, name); why != "" {
					bad("the default tag's name %s", why)
				}
				if why := b.made(x, e.St, p.One, "Tag", tag(name)); why != "" {
					bad("the default tag %s", why)
				}
				first = name
			default:
				bad("the section's tags become %s", list)
				continue
			}
			prim := sf(e.St, con, "PrimaryTag")
			if !sameVal(e.St, prim, flow.Elem(list, flow.Int(0), tagN), tagN) && b.made(x, e.St, prim, "Tag", tag(first)) != "" {
				bad("the primary tag is %s instead of the first tag", prim)
			}
		}
	}
	// adding one tag
	for _, n := range []string{"SetTag", "SetTagAnchored"} {
		fn := c.meth(mod, "Section", n)
		var a []*flow.Term
		if n == "SetTag" {
			a = params(fn, "section", "name", "title", "location", "anchors")
		} else {
			a = params(fn, "section", "name", "title", "location", "content", "anchor")
		}
		con := a[0]
		r := &flow.Rule{Keep: loopSyms}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base != con || field != "Tags" {
				c.VP("store:"+n, instr.Pos(), s.Path(), "%s sets %s of %s", n, field, base)
			}
		})
		x, exits := c.run(r, fn, a, nil)
		good := 0
		for _, e := range exits {
			want := map[string]madeField{"Name": is(a[1]), "Title": is(a[2]), "Section": is(con), "Location": is(a[3])}
			if n == "SetTagAnchored" {
				want["Content"], want["Anchor"] = is(a[4]), is(a[5])
			}
			old := flow.Field(con, "Tags", tagsT)
			made := appended(sf(e.St, con, "Tags"), old)
			if made == nil {
				c.VP("add:"+n, e.Pos, e.St.Path(), "%s leaves the tags %s", n, sf(e.St, con, "Tags"))
				continue
			}
			cases := []*flow.Term{flow.Bool(true)}
			if n == "SetTag" {
				none := flow.Eq(flow.Len(a[4]), flow.Int(0))
				cases = []*flow.Term{none, flow.Not(none)}
			}
			for i, f := range cases {
				s := consistent(e.St, f)
				if s == nil {
					continue
				}
				good++
				c.Obl("added tags")
				if i == 1 {
					want["Anchor"] = is(flow.Elem(a[4], flow.Int(0), strT))
				}
				if why := b.made(x, s, made, "Tag", want); why != "" {
					c.VP("add:"+n, e.Pos, s.Path(), "the tag added by %s %s", n, why)
				}
			}
		}
		if good == 0 {
			c.V("add:"+n, fn.Pos(), "%s adds no tag", n)
		}
	}
	// the title function
	titleFn, a, sec := b.method("Title")
	if len(a) != 3 {
		c.V("anchor:Title", titleFn.Pos(), "the title function no longer takes a title and tags")
		return
	}
	twice := c.P.named(mod, "TitleTwiceError")
	elocT := fieldTypeOf(twice, "TitleLocation")
	invoke := flow.Field(sec, "InvokeLocation", fieldTypeOf(b.secN, "InvokeLocation"))
	title0 := flow.Field(sec, "Title", conT)
	noTitle := emptyTitle(c, title0)
	fp := c.P.method(mod, "Section", "FilePath")
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if t, ok := filePathCall(c, ci); ok {
			return one(s, t), true
		}
		if ci.Callee == setTitle {
			s.AddSticky("titled", ci.Args...)
			if it := s.Items("titled"); len(it) > 1 {
				c.VP("title:twice", ci.Pos, s.Path(), "the title function sets the title more than once")
			}
			return one(s, flow.Nil()), true
		}
		return nil, false
	}}
	_ = fp
	r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
		c.VP("title:store", instr.Pos(), s.Path(), "the title function sets %s of %s", field, base)
	})
	_, exits := c.run(r, titleFn, a, nil)
	okSeen, failSeen := false, false
	for _, e := range exits {
		c.Obl("outcomes of the title function")
		bad := func(f string, as ...any) { c.VP("title", e.Pos, e.St.Path(), f, as...) }
		done := e.St.Items("titled")
		if errPath(e.St, e.Res) {
			failSeen = true
			if len(done) > 0 {
				bad("the title function fails after setting the title")
			}
			if consistent(e.St, noTitle) != nil {
				bad("the title function can fail for a section without a title")
			}
			er := unwrap(e.Res[len(e.Res)-1])
			if twice == nil || e.Res[0].Op != "iface" || !types.Identical(e.Res[0].Args[0].Typ, twice) {
				bad("a second title is refused with %s", e.Res[0])
				continue
			}
			file := flow.Sym("pure", "filepath", strT, sec)
			for f, want := range map[string]*flow.Term{
				"TitleLocation": flow.Field(sec, "TitleLocation", locT),
				"ErrorLocation": invoke,
			} {
				l := get(e.St, er, f, elocT)
				if got := get(e.St, l, "FilePath", strT); got != file {
					bad("the error for a second title names file %s", got)
				}
				if got := get(e.St, l, "NodeLocation", locT); !sameVal(e.St, got, want, locT) {
					bad("the error for a second title has %s %s instead of %s", f, got, want)
				}
			}
			continue
		}
		okSeen = true
		if consistent(e.St, flow.Not(noTitle)) != nil {
			bad("a title can be set for a section which has one")
		}
		if len(done) != 1 {
			bad("the title function succeeds without setting the title")
			continue
		}
		t := done[0].Terms
		if t[0] != sec || unwrap(t[1]) != unwrap(a[1]) || !sameVal(e.St, t[2], invoke, locT) || t[3] != a[2] && !spreadOf(t[3], a[2]) {
			bad("the title function sets title %s at %s with tags %s of %s", t[1], t[2], t[3], t[0])
		}
	}
	if !okSeen || !failSeen {
		c.V("title", titleFn.Pos(), "the title function never succeeds or never fails")
	}
	// sections start without a title
	m := newEvalModel(c)
	for _, mk := range newSectionMakers(c) {
		_, exits := c.run(&flow.Rule{Store: b.onlyNew(mk.what, "Title", "TitleLocation", "PrimaryTag", "Tags"), Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if _, v := m.visit(ci); v != nil {
				c.Obl("new sections")
				con := unwrap(s.LoadField(unwrap(v), m.sec, b.ch.secT))
				if s.Decide(emptyTitle(c, s.LoadField(con, "Title", conT))) != 1 {
					c.VP("start:"+mk.what, ci.Pos, s.Path(), "a section is evaluated which already has title %s", s.LoadField(con, "Title", conT))
				}
			}
			return m.call(x, s, ci)
		}}, mk.fn, mk.args, nil)
		_ = exits
	}
	// nobody else
	makers := []*ssa.Function{}
	for _, mk := range newSectionMakers(c) {
		makers = append(makers, mk.fn)
	}
	made := c.P.reach(makers...)
	ofTitle := c.P.reach(setTitle)
	ofTags := c.P.reach(setTitle, c.meth(mod, "Section", "SetTag"), c.meth(mod, "Section", "SetTagAnchored"))
	for f, ok := range map[string]map[*ssa.Function]bool{"Title": ofTitle, "TitleLocation": ofTitle, "PrimaryTag": ofTitle, "Tags": ofTags} {
		for _, st := range c.fieldStores(b.secN, f) {
			c.Obl("stores of titles and tags")
			if !ok[st.Fn] && !st.Fresh && !made[st.Fn] && c.P.live()[st.Fn] {
				c.V("store:"+f+":"+st.Fn.Name(), st.Instr.Pos(), "%s sets %s of a section outside of the functions which decide it", short(st.Fn.String()), f)
			}
		}
	}
	c.Need("outcomes of setting a title", 2)
	c.Need("added tags", 2)
	c.Need("outcomes of the title function", 2)
	c.Need("new sections", 2)
}

func termOr(t *flow.Term) *flow.Term {
	if t == nil {
		return flow.Sym("unknown", "", nil)
	}
	return t
}

func spreadOf(t, l *flow.Term) bool {
	return t.Op == "cat" && len(t.Args) == 1 && t.Args[0].Op == "spread" && t.Args[0].Args[0] == l
}
