package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C44", Title: "A page lists exactly the anchors on it",
		Rule:  "Section.HasAnchors and Section.AnchorTags are summarised symbolically, the recursive call and AnchorTags' result as opaque values. HasAnchors may yield true only where an own tag was seen to have an anchor, or, where the section is known not to split, a child was seen to have anchors (or where AnchorTags is known not to be empty); it may yield false only after going through all of the own tags, and all children unless the section splits, with every iteration that goes on excluding a hit. AnchorTags must be a pass over the own tags that keeps exactly those with an anchor, unchanged, once and in order.",
		Trust: []string{"a section which splits has its children on pages of their own (decided by C06 and C07)"},
		Run:   runC44,
	})
}

func runC44(c *C) {
	ch := newChain(c)
	secN := c.P.named(mod, "Section")
	tagT := c.P.named(mod, "Tag")
	sec := flow.Sym("param", "section", ch.secT)
	has := c.meth(mod, "Section", "HasAnchors")
	list := c.meth(mod, "Section", "AnchorTags")
	tags := flow.Field(sec, "Tags", fieldTypeOf(secN, "Tags"))
	kids := flow.Field(sec, "Children", fieldTypeOf(secN, "Children"))
	split := ch.boolField(sec, "SplitSections")
	anchored := func(tag *flow.Term) *flow.Term {
		return flow.Not(flow.Eq(flow.Field(tag, "Anchor", types.Typ[types.String]), flow.StrConst("")))
	}
	hasT := func(s *flow.Term) *flow.Term { return flow.Sym("pure", "HasAnchors", types.Typ[types.Bool], s) }
	listT := func(s *flow.Term) *flow.Term { return flow.Sym("pure", "AnchorTags", tags.Typ, s) }
	run := func(f *ssa.Function, args ...*flow.Term) (*flow.Exec, []exitRec) {
		r := &flow.Rule{Keep: loopSyms}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch ci.Callee {
			case nil:
			case has:
				return one(s, hasT(ci.Args[0])), true
			case list:
				return one(s, listT(ci.Args[0])), true
			}
			return nil, false
		}
		throughLoops(r)
		return c.run(r, f, args, nil)
	}
	x, exits := run(has, sec)
	q := &existence{c: c, x: x, name: "HasAnchors", ways: []sought{
		{what: "a tag of the section", over: tags, hit: anchored},
		{what: "a child on the same page", over: kids, hit: hasT, unless: split},
	}}
	none := flow.Eq(flow.Len(listT(sec)), flow.Int(0))
	q.moreTrue = func(s *flow.State) bool {
		return excluded(s, []*flow.Term{none})
	}
	q.none = func(s *flow.State, w sought) bool {
		return w.over == tags && excluded(s, []*flow.Term{flow.Not(none)})
	}
	for _, e := range exits {
		q.exit(e)
	}
	x, exits = run(list, sec)
	for _, e := range exits {
		c.Obl("lists of anchors")
		bad := func(f string, a ...any) { c.VP("AnchorTags", e.Pos, e.St.Path(), "AnchorTags "+f, a...) }
		ps, ok := pieces(x, e.Res[0])
		if !ok {
			bad("yields %s, which is not made from tags of the section", e.Res[0])
			continue
		}
		passes := 0
		for _, p := range ps {
			l := p.Loop
			if l == nil || l.Over != tags {
				bad("includes something other than tags of the section")
				continue
			}
			passes++
			if l.left(e.St) {
				bad("can leave out tags of the section")
			}
			for _, it := range l.It {
				d := it.St.Decide(anchored(l.Elem))
				switch {
				case it.Same:
					if d != 0 {
						bad("can leave out a tag which has an anchor (%s)", it.St.Path())
					}
				case len(it.Parts) == 1 && it.Parts[0].One != nil && sameVal(it.St, it.Parts[0].One, l.Elem, tagT):
					if d != 1 {
						bad("can include a tag which has no anchor (%s)", it.St.Path())
					}
				default:
					bad("includes a tag changed or more than once")
				}
			}
		}
		if passes != 1 && e.St.Decide(flow.Eq(flow.Len(tags), flow.Int(0))) != 1 {
			bad("goes over the tags of the section %d times", passes)
		}
	}
	c.Need("outcomes", 2)
	c.Need("lists of anchors", 1)
}
