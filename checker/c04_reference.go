package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C04", Title: "References resolve to the one matching tag, or fail with the reason",
		Rule:  "Reference.Tag is summarised symbolically with the list of matching tags as a symbol. Every exit is classified by its facts over (already resolved?, 0/1/2+ matches, optional?, broken references allowed?); each of the combinations must have an exit, and every exit consistent with a combination must have the table's outcome: the tag, the error type with its fields (all matches mapped to their locations), or the made-up tag, and what is remembered. No other code writes the remembered tag.",
		Trust: []string{"FindTag returns every matching tag exactly once (decided by C05)"},
		Run:   runC04,
	})
}

// filePath models Section.FilePath as a pure attribute of the section.
func filePathCall(c *C, ci *flow.CallInfo) (*flow.Term, bool) {
	fp := c.P.method(mod, "Section", "FilePath")
	if fp != nil && ci.Callee == fp {
		return filePathOf(ci.Args[0]), true
	}
	return nil, false
}

func filePathOf(sec *flow.Term) *flow.Term {
	return flow.Sym("pure", "filepath", types.Typ[types.String], sec)
}

func runC04(c *C) {
	fn := c.meth(mod, "Reference", "Tag")
	find := c.meth(mod, "Section", "FindTag")
	similar := c.P.method(mod, "Section", "SimilarTags")
	refN := c.P.named(mod, "Reference")
	tagT := c.P.named(mod, "Tag")
	con := flow.Sym("param", "ref", types.NewPointer(refN))
	fld := func(n string) *flow.Term { return flow.Field(con, n, fieldTypeOf(refN, n)) }
	memoField := ""
	rs := structOf(refN)
	for i := 0; i < rs.NumFields(); i++ {
		if types.Identical(rs.Field(i).Type(), types.NewPointer(tagT)) {
			memoField = rs.Field(i).Name()
		}
	}
	tagsT := types.NewSlice(tagT)
	tags := flow.Sym("pure", "findtag", tagsT, fld("Section"), fld("TagName"))
	looked := 0
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == find {
			if ci.Args[0] != fld("Section") || ci.Args[1] != fld("TagName") {
				c.VP("lookup", ci.Pos, s.Path(), "the reference is looked up as %s in %s", ci.Args[1], ci.Args[0])
			}
			looked++
			return one(s, tags), true
		}
		if similar != nil && ci.Callee == similar {
			return one(s, flow.Sym("pure", "similar", tagsT, ci.Args...)), true
		}
		if t, ok := filePathCall(c, ci); ok {
			return one(s, t), true
		}
		if strings.HasPrefix(ci.Name, "fmt.") || ci.Callee != nil && ci.Callee.Name() == "Error" {
			return nil, false
		}
		return nil, false
	}
	x, exits := c.run(r, fn, []*flow.Term{con}, nil)
	if looked == 0 {
		c.V("lookup", fn.Pos(), "resolving a reference never looks up its tag with FindTag")
		return
	}
	memo := flow.Sym("field", "", nil)
	if memoField != "" {
		memo = fld(memoField)
	}
	allow := flow.Sym("global", mod+".AllowBrokenReferences", types.Typ[types.Bool])
	type combo struct {
		name  string
		facts []*flow.Term
		check func(e exitRec, s *flow.State) string
	}
	n := flow.Len(tags)
	zero, uniq, many := flow.Eq(n, flow.Int(0)), flow.Eq(n, flow.Int(1)), flow.Not(flow.Lt(n, flow.Int(2)))
	opt := fld("Optional")
	fresh := flow.Eq(memo, flow.Nil())
	noErr := func(e exitRec, s *flow.State) string {
		if s.IsNil(e.Res[1]) != 1 {
			return "fails with " + e.Res[1].String()
		}
		return ""
	}
	remembered := func(s *flow.State) *flow.Term {
		if memoField == "" {
			return flow.Nil()
		}
		return s.LoadField(con, memoField, types.NewPointer(tagT))
	}
	forgets := func(s *flow.State) string {
		if m := remembered(s); m != memo && s.IsNil(m) != 1 {
			return "remembers " + m.String() + " as the resolution"
		}
		return ""
	}
	isUnique := func(s *flow.State, t *flow.Term) bool {
		if t.Op == "ia" && t.Args[0] == tags && isInt(t.Args[1], 0) {
			return true
		}
		if t.Op == "alloc" {
			return sameVal(s, s.Load(t, tagT), flow.Elem(tags, flow.Int(0), tagT), tagT)
		}
		return false
	}
	ok := func(e exitRec, s *flow.State) string {
		if w := noErr(e, s); w != "" {
			return w
		}
		if !isUnique(s, e.Res[0]) {
			return "resolves to " + e.Res[0].String() + " instead of the one matching tag"
		}
		if m := remembered(s); m != memo && m != e.Res[0] && !isUnique(s, m) {
			return "remembers " + m.String()
		}
		return ""
	}
	located := func(s *flow.State, ev *flow.Term, et *types.Named) string {
		loc := flow.Field(ev, "ErrorLocation", fieldTypeOf(et, "ErrorLocation"))
		if got := flow.Field(loc, "FilePath", nil); got != filePathOf(fld("Section")) {
			return "is located in file " + got.String()
		}
		if got := flow.Field(loc, "NodeLocation", nil); got != fld("Location") {
			return "is located at " + got.String()
		}
		if got := flow.Field(ev, "TagName", nil); got != fld("TagName") {
			return "names tag " + got.String()
		}
		return ""
	}
	errIs := func(e exitRec, s *flow.State, typ string) (*flow.Term, *types.Named, string) {
		t := e.Res[1]
		et := c.P.named(mod, typ)
		if t.Op != "iface" || et == nil || typeName(t.Typ) != typ {
			return nil, nil, "yields " + t.String() + " instead of " + typ
		}
		v := t.Args[0]
		if v.Op == "alloc" {
			v = s.Load(v, et)
		}
		return v, et, ""
	}
	unknown := func(e exitRec, s *flow.State) string {
		v, et, w := errIs(e, s, "UnknownTagError")
		if w != "" {
			return w
		}
		if w := located(s, v, et); w != "" {
			return "unknown-tag error " + w
		}
		return forgets(s)
	}
	ambiguous := func(e exitRec, s *flow.State) string {
		v, et, w := errIs(e, s, "AmbiguousReferenceError")
		if w != "" {
			return w
		}
		if w := located(s, v, et); w != "" {
			return "ambiguity error " + w
		}
		locs := flow.Field(v, "DefinedLocations", fieldTypeOf(et, "DefinedLocations"))
		if w := allLocations(c, x, s, locs, tags, tagT, r); w != "" {
			return "ambiguity error " + w
		}
		return forgets(s)
	}
	madeUp := func(e exitRec, s *flow.State) string {
		if w := noErr(e, s); w != "" {
			return w
		}
		t := e.Res[0]
		if t.Op != "alloc" {
			return "yields " + t.String() + " instead of a made-up tag"
		}
		if got := s.LoadField(t, "Name", types.Typ[types.String]); got != fld("TagName") {
			return "makes up a tag named " + got.String()
		}
		if got := s.LoadField(t, "Section", fieldTypeOf(tagT, "Section")); got != fld("Section") {
			return "makes up a tag of section " + got.String()
		}
		if s.IsNil(s.LoadField(t, "Title", fieldTypeOf(tagT, "Title"))) != 0 {
			return "makes up a tag without a title"
		}
		return forgets(s)
	}
	nilTag := func(e exitRec, s *flow.State) string {
		if w := noErr(e, s); w != "" {
			return w
		}
		if t := e.Res[0]; t != memo && s.IsNil(t) != 1 {
			return "yields " + t.String() + " instead of no tag"
		}
		return forgets(s)
	}
	combos := []combo{
		{"one match", []*flow.Term{fresh, uniq}, ok},
		{"no match, optional", []*flow.Term{fresh, zero, opt}, nilTag},
		{"no match, not optional, strict", []*flow.Term{fresh, zero, flow.Not(opt), flow.Not(allow)}, unknown},
		{"no match, not optional, broken references allowed", []*flow.Term{fresh, zero, flow.Not(opt), allow}, madeUp},
		{"several matches, optional, strict", []*flow.Term{fresh, many, opt, flow.Not(allow)}, ambiguous},
		{"several matches, not optional, strict", []*flow.Term{fresh, many, flow.Not(opt), flow.Not(allow)}, ambiguous},
		{"several matches, optional, broken references allowed", []*flow.Term{fresh, many, opt, allow}, madeUp},
		{"several matches, not optional, broken references allowed", []*flow.Term{fresh, many, flow.Not(opt), allow}, madeUp},
	}
	if memoField != "" {
		combos = append(combos, combo{"already resolved", []*flow.Term{flow.Not(fresh)}, func(e exitRec, s *flow.State) string {
			if w := noErr(e, s); w != "" {
				return w
			}
			if e.Res[0] != memo && !isUnique(s, e.Res[0]) {
				return "yields " + e.Res[0].String() + " instead of the resolved tag"
			}
			return ""
		}})
	}
	for _, cb := range combos {
		n := 0
		for _, e := range exits {
			s := consistent(e.St, cb.facts...)
			if s == nil {
				continue
			}
			n++
			if w := cb.check(e, s); w != "" {
				c.VP("outcome:"+cb.name, e.Pos, e.St.Path(), "a reference with %s %s", cb.name, w)
			}
		}
		c.Obl("combinations")
		c.Sample("%s: %d exits", cb.name, n)
		if n == 0 {
			c.V("outcome:"+cb.name, fn.Pos(), "a reference with %s has no outcome", cb.name)
		}
	}
	// nobody else remembers tags
	if memoField != "" {
		for _, pk := range c.P.scope() {
			for _, f := range c.P.funcsIn(pk) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						fa, ok := i.(*ssa.FieldAddr)
						if !ok || fa.Referrers() == nil {
							continue
						}
						pt, _ := fa.X.Type().Underlying().(*types.Pointer)
						if pt == nil || typeName(pt.Elem()) != "Reference" || structOf(pt).Field(fa.Field).Name() != memoField {
							continue
						}
						for _, ref := range *fa.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
								c.Obl("writers of the resolved tag")
								if !x.Funcs[f] {
									c.V("writer:"+f.Name(), st.Pos(), "%s writes the resolved tag of a reference", f.Name())
								}
							}
						}
					}
				}
			}
		}
	}
	c.Need("combinations", 8)
}

// allLocations: the list maps every tag to its location.
func allLocations(c *C, x *flow.Exec, s *flow.State, locs, tags *flow.Term, tagT types.Type, r *flow.Rule) string {
	ps, ok := pieces(x, locs)
	if !ok || len(ps) != 1 || ps[0].Loop == nil {
		return "lists " + locs.String() + " instead of the location of every match"
	}
	l := ps[0].Loop
	if l.Over != tags || l.left(s) {
		return "does not list the locations of all matches"
	}
	for _, it := range l.It {
		if len(it.Parts) != 1 || it.Parts[0].One == nil {
			return "can leave out or repeat a match"
		}
		loc := it.Parts[0].One
		el := l.Elem
		if got, want := flow.Field(loc, "FilePath", nil), filePathOf(flow.Field(el, "Section", nil)); got != want {
			return "gives file " + got.String() + " for a match"
		}
		if got, want := flow.Field(loc, "NodeLocation", nil), flow.Field(el, "Location", nil); got != want {
			return "gives location " + got.String() + " for a match"
		}
	}
	return ""
}

var _ = token.NoPos
