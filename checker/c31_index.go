package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C31", Title: "The search index covers every tag",
		Rule:  "WriteSearchIndex is executed abstractly, its recursive helpers by induction over the tree: on every way out the map has been given, for every element of the section's Tags, an entry under that tag's name whose location is the engine's URL of that very tag, whose title, text, depth and section tag are those of the tag or its section, and the helper has been applied to the same map and every element of Children. The encoded value must be that map, which starts empty, and nothing else writes to it or removes from it.",
		Trust: []string{"a tag's Section is the section whose Tags hold it (decided by C01 and C28)", "encoding/json"},
		Run:   runC31,
	})
}

func runC31(c *C) {
	ch := newChain(c)
	secN := c.P.named(mod, "Section")
	tagT := c.P.named(mod, "Tag")
	con := c.P.named(mod, "Content")
	docT := c.P.named(renderPkg, "SearchDocument")
	strT, intT := types.Typ[types.String], types.Typ[types.Int]
	root := c.meth(renderPkg, "Writer", "WriteSearchIndex")
	depth := c.meth(mod, "Section", "Depth")
	tagsT := fieldTypeOf(secN, "Tags")
	kidsT := fieldTypeOf(secN, "Children")
	rec := c.P.recursive()
	str := func(v *flow.Term) *flow.Term { return flow.Sym("pure", "string", strT, unwrap(v)) }
	dep := func(v *flow.Term) *flow.Term { return flow.Sym("pure", "depth", intT, v) }
	isIndex := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && types.Identical(m.Elem(), docT)
	}
	type key struct {
		fn        *ssa.Function
		args      []*flow.Term
		subj, idx *flow.Term
	}
	keys := map[*ssa.Function]*key{}
	wT := root.Signature.Recv().Type()
	wr := flow.Sym("param", "writer", wT)
	subj := flow.Sym("param", "section", ch.secT)
	todo := []*key{{fn: root, args: []*flow.Term{wr, subj, flow.Sym("param", "path", strT)}, subj: subj}}
	for n := 0; n < len(todo); n++ {
		k := todo[n]
		name := k.fn.Name()
		r := &flow.Rule{Keep: loopSyms}
		// find the tag an entry is for: the element of the section's tags which
		// the current iteration handles
		isTag := func(s *flow.State, cand, el *flow.Term) bool {
			return sameVal(s, cand, el, tagT)
		}
		engine := func(s *flow.State, e *flow.Term) bool {
			return e == get(s, wr, "Engine", fieldTypeOf(wT, "Engine"))
		}
		urlOf := map[*flow.Term]*flow.Term{} // result -> tag
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			f := ci.Callee
			switch {
			case f == depth:
				return one(s, dep(ci.Args[0])), true
			case ci.Name == "invoke:("+mod+".Content).String":
				return one(s, str(ci.Args[0])), true
			case strings.HasPrefix(ci.Name, "invoke:(") && strings.HasSuffix(ci.Name, ").URL"):
				if !engine(s, ci.Args[0]) {
					c.VP("engine:"+name, ci.Pos, s.Path(), "the location of a tag does not come from the writer's engine")
				}
				t := ci.Args[1]
				res := flow.Sym("pure", "url", strT, t)
				urlOf[res] = t
				return one(s, res), true
			case ci.Name == "delete" || ci.Name == "clear" || ci.Name == "builtin:delete" || ci.Name == "builtin:clear":
				if len(ci.Args) > 0 && ci.Args[0].Typ != nil && isIndex(ci.Args[0].Typ) {
					c.VP("removed:"+name, ci.Pos, s.Path(), "%s removes entries from the search index", name)
				}
				return nil, false
			}
			if ci.Name == "(*encoding/json.Encoder).Encode" || ci.Name == "encoding/json.Marshal" || ci.Name == "encoding/json.MarshalIndent" {
				v := ci.Args[0]
				if strings.HasSuffix(ci.Name, "Encode") {
					v = ci.Args[1]
				}
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					o.St.AddSticky("encoded", unwrap(v), o.Res)
				}
				return outs, true
			}
			if f == nil || !rec[f] || !x.InModule(f) {
				return nil, false
			}
			nk := &key{fn: f}
			var cov, idx *flow.Term
			for i, a := range ci.Args {
				t := f.Params[i].Type()
				switch {
				case nk.subj == nil && ch.isSec(t):
					nk.subj = flow.Sym("param", "section"+itoa(i), ch.secT)
					nk.args = append(nk.args, nk.subj)
					cov = a
				case nk.idx == nil && isIndex(t):
					nk.idx = flow.Sym("param", "index"+itoa(i), t)
					nk.args = append(nk.args, nk.idx)
					idx = a
				case types.Identical(t, wT):
					nk.args = append(nk.args, wr)
					if a != wr && !sameVal(s, a, wr, wT) {
						c.VP("writer:"+name, ci.Pos, s.Path(), "%s hands the index to another writer", name)
					}
				case engine(s, a) && types.IsInterface(t):
					nk.args = append(nk.args, flow.Field(wr, "Engine", fieldTypeOf(wT, "Engine")))
				default:
					nk.args = append(nk.args, flow.Sym("param", "arg"+itoa(i), t))
				}
			}
			if nk.subj == nil || nk.idx == nil {
				return nil, false
			}
			s.Add("covered", idx, cov)
			if keys[f] == nil {
				keys[f] = nk
				todo = append(todo, nk)
			}
			return one(s, flow.Nil()), true
		}
		r.MapUpdate = func(x *flow.Exec, s *flow.State, m, kt, v *flow.Term, ins ssa.Instruction) {
			if m.Typ == nil || !isIndex(m.Typ) {
				return
			}
			c.Obl("entries")
			loc := get(s, v, "Location", strT)
			el := urlOf[loc]
			if el == nil {
				c.VP("location:"+name, ins.Pos(), s.Path(), "the location of an index entry is %s instead of the URL of its tag", loc)
				return
			}
			if !isTag(s, el, el) || !sameVal(s, kt, get(s, el, "Name", strT), strT) {
				c.VP("name:"+name, ins.Pos(), s.Path(), "an index entry has the URL of %s but is stored under %s", el, kt)
			}
			own := func(sec *flow.Term) bool {
				return sec == get(s, el, "Section", ch.secT) || sec == k.subj
			}
			if t := get(s, v, "Title", strT); t != str(get(s, el, "Title", con)) && !(s.IsNil(get(s, el, "Title", con)) == 1 && t == flow.StrConst("")) {
				c.VP("title:"+name, ins.Pos(), s.Path(), "the title of an index entry is %s", t)
			}
			text := get(s, v, "Text", strT)
			body := func(t *flow.Term) bool {
				for _, sec := range []*flow.Term{get(s, el, "Section", ch.secT), k.subj} {
					if t == str(s.LoadField(sec, "Body", con)) {
						return true
					}
				}
				return false
			}
			tc := get(s, el, "Content", con)
			switch s.IsNil(tc) {
			case 1:
				if !body(text) {
					c.VP("text:"+name, ins.Pos(), s.Path(), "the text of an index entry for a tag without content is %s", text)
				}
			case 0:
				if text != str(tc) {
					c.VP("text:"+name, ins.Pos(), s.Path(), "the text of an index entry for a tag with content is %s", text)
				}
			default:
				c.VP("text:"+name, ins.Pos(), s.Path(), "the text of an index entry is %s whether the tag has content or not", text)
			}
			d := get(s, v, "Depth", intT)
			if d != dep(get(s, el, "Section", ch.secT)) && d != dep(k.subj) {
				c.VP("depth:"+name, ins.Pos(), s.Path(), "the depth of an index entry is %s", d)
			}
			st := get(s, v, "SectionTag", strT)
			okTag := false
			for _, sec := range []*flow.Term{get(s, el, "Section", ch.secT), k.subj} {
				pt := s.LoadField(sec, "PrimaryTag", tagT)
				okTag = okTag || own(sec) && sameVal(s, st, get(s, pt, "Name", strT), strT)
			}
			if !okTag {
				c.VP("section:"+name, ins.Pos(), s.Path(), "the section tag of an index entry is %s", st)
			}
			s.Add("indexed", m, el)
		}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		x, exits := c.run(r, k.fn, k.args, nil)
		if len(exits) == 0 {
			c.V("index:"+name, k.fn.Pos(), "%s never returns", name)
		}
		each := func(s *flow.State, list *flow.Term, elem types.Type, had func(*flow.State, *flow.Term) bool) bool {
			if s.Decide(flow.Eq(flow.Len(list), flow.Int(0))) == 1 {
				return true
			}
			for lk, sum := range x.LoopSums {
				over, el, _ := sumElem(x, sum)
				if over != list || !s.Has("through:"+lk) || s.Has("left:"+lk) {
					continue
				}
				all := len(sum.Iters) > 0
				for _, it := range sum.On(s) {
					all = all && had(it.St, el)
				}
				if all {
					return true
				}
			}
			return false
		}
		for _, e := range exits {
			c.Obl("ways out")
			s := e.St
			idx := k.idx
			if n == 0 {
				if len(e.Res) == 0 || errPath(s, e.Res) {
					continue
				}
				done := false
				for _, it := range s.Items("encoded") {
					if s.IsNil(it.Terms[1]) != 0 {
						idx = it.Terms[0]
						done = true
					}
				}
				if !done || idx.Typ == nil || !isIndex(idx.Typ) {
					c.VP("encoded", e.Pos, s.Path(), "WriteSearchIndex can succeed without writing the index")
					continue
				}
				if idx.Op == "param" {
					c.VP("fresh", e.Pos, s.Path(), "the search index does not start empty")
				}
			}
			if s.Has("covered", idx, k.subj) {
				continue
			}
			if !each(s, flow.Field(k.subj, "Tags", tagsT), tagT, func(is *flow.State, el *flow.Term) bool {
				for _, it := range is.Items("indexed") {
					if it.Terms[0] == idx && isTag(is, it.Terms[1], el) {
						return true
					}
				}
				return false
			}) {
				c.VP("tags:"+name, e.Pos, s.Path(), "%s can leave out tags of the section", name)
			}
			if !each(s, flow.Field(k.subj, "Children", kidsT), ch.secT, func(is *flow.State, el *flow.Term) bool { return is.Has("covered", idx, el) }) {
				c.VP("children:"+name, e.Pos, s.Path(), "%s can leave out child sections", name)
			}
		}
	}
	c.Need("entries", 1)
	c.Need("ways out", 2)
}
