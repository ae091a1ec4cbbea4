package main

import (
	"go/types"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C40", Title: "Suggestions for an unknown tag are the similar ones",
		Rule:  "SimilarTags is decided like tag lookup (C05): its recursive functions are summarised as lists made from the section's own tags, its children's and its parent's results, so that by induction every section is searched exactly once; a tag must be kept exactly under the condition that the Levenshtein match of the name searched and its own name exceeds one half. Every exit of Reference.Tag with an unknown tag error must carry the similar tags of the reference's own section and name.",
		Trust: []string{"levenshtein.Match computes the documented similarity", "a section is a child of its parent exactly once (decided by C29)"},
		Run:   runC40,
	})
}

func runC40(c *C) {
	half := func(s *flow.State, call *flow.Term) int {
		for f, v := range s.Facts {
			if f.Op == "lt" && f.Args[1] == call {
				if k := f.Args[0].String(); k == "1/2" {
					return b2i(v)
				}
			}
			if f.Op == "lt" && f.Args[0] == call && v {
				if k := f.Args[1].String(); k == "1/2" {
					return 0
				}
			}
		}
		return -1
	}
	searchTags(c, "SimilarTags", func(s *flow.State, name, other *flow.Term) int {
		for f := range s.Facts {
			for _, a := range f.Args {
				if flow.CallName(a) != "github.com/agext/levenshtein.Match" || len(a.Args) != 3 || !a.Args[2].IsNil() {
					continue
				}
				if a.Args[0] == name && a.Args[1] == other || a.Args[0] == other && a.Args[1] == name {
					return half(s, a)
				}
			}
		}
		return -1
	})
	// references carry them
	fn := c.meth(mod, "Reference", "Tag")
	similar := c.meth(mod, "Section", "SimilarTags")
	find := c.meth(mod, "Section", "FindTag")
	refN := c.P.named(mod, "Reference")
	ref := flow.Sym("param", "ref", types.NewPointer(refN))
	tagsT := types.NewSlice(c.P.named(mod, "Tag"))
	sim := func(args ...*flow.Term) *flow.Term { return flow.Sym("pure", "similar", tagsT, args...) }
	fld := func(n string) *flow.Term { return flow.Field(ref, n, fieldTypeOf(refN, n)) }
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		switch ci.Callee {
		case nil:
		case find:
			return one(s, flow.Sym("pure", "findtag", tagsT, ci.Args...)), true
		case similar:
			return one(s, sim(ci.Args...)), true
		}
		return nil, false
	}
	et := c.P.named(mod, "UnknownTagError")
	if et == nil || fieldTypeOf(et, "SimilarTags") == nil {
		c.V("anchor:UnknownTagError", fn.Pos(), "unknown tag errors no longer carry suggestions")
		return
	}
	_, exits := c.run(r, fn, []*flow.Term{ref}, nil)
	for _, e := range exits {
		t := e.Res[1]
		if t.Op != "iface" || typeName(t.Typ) != "UnknownTagError" {
			continue
		}
		c.Obl("unknown tag errors")
		v := t.Args[0]
		if v.Op == "alloc" {
			v = e.St.Load(v, et)
		}
		if got := flow.Field(v, "SimilarTags", tagsT); got != sim(fld("Section"), fld("TagName")) {
			c.VP("carried", e.Pos, e.St.Path(), "the error suggests %s instead of the tags similar to the name in the section of the reference", got)
		}
	}
	c.Need("unknown tag errors", 1)
}
