package main

import (
	"go/token"
	"go/types"

	"verif/checker/flow"
)

var collectExempt = map[string]string{
	"Section.Parent":          "link to the enclosing section, not nested content",
	"Section.PrimaryTag":      "tag metadata",
	"Section.Tags":            "tag metadata",
	"TableOfContents.Section": "link to the section whose children are listed",
	"Reference.Section":       "scope to resolve in",
	"Reference.tag":           "resolved tag",
	"Target.Title":            "not rendered where the target is placed; carried into the tag",
	"Target.Content":          "not rendered where the target is placed; carried into the tag",
	"Lazy.result":             "evaluated at rendering time",
	"Tag.Section":             "tag metadata",
	"Tag.Title":               "tag metadata",
	"Tag.Content":             "tag metadata",
}

func init() {
	register(checkDef{
		ID: "C01", Title: "Every target placed in a document can be referenced",
		Rule:  "Traversal-coverage dataflow over the collecting visitor: for every content type, on every path of its visit method that can return success, every nested content value (derived from the type structure; exemptions are a named table) has been visited by a collector bound to the right section; loops must run over the whole collection and may only skip nil elements. A visited target adds exactly one tag carrying its name, title, location, content and anchor. Every load that succeeds has run the collector over the section it returns.",
		Trust: []string{"content produced lazily while rendering is out of scope", "calls out of the module do not change the sections"},
		Run:   runC01,
	})
}

func runC01(c *C) {
	cv := newCover(c, collectExempt)
	vis := c.P.iface(mod, "Visitor")
	col := c.P.named(mod+"/stages", "Collect")
	if col == nil || vis == nil {
		c.V("anchor:Collect", token.NoPos, "the collecting visitor no longer exists")
		return
	}
	// the collector's section field
	secField := ""
	st, _ := col.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if typeName(st.Field(i).Type()) == "Section" {
			secField = st.Field(i).Name()
		}
	}
	if secField == "" {
		c.V("anchor:Collect.Section", col.Obj().Pos(), "the collecting visitor has no section to collect into")
		return
	}
	secT := types.NewPointer(c.P.named(mod, "Section"))
	secOf := func(s *flow.State, v *flow.Term) *flow.Term {
		v = unwrap(v)
		if v.Op == "loadv" {
			return nil
		}
		return s.LoadField(v, secField, secT)
	}
	handler := func(recvSec *flow.Term) func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		return func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			con, v := cv.visitCall(ci)
			if con == nil {
				return nil, false
			}
			want := recvSec
			isSec := con.Typ != nil && types.Identical(con.Typ, secT)
			if v.Op != "iface" && v.Op != "param" && v.Op != "alloc" {
				return forkErr(x, s, ci), true
			}
			got := secOf(s, v)
			if isSec {
				want = unwrap(con)
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				if got == want {
					cv.seen(o.St, con)
				} else {
					o.St.AddSticky("wrongsec", unwrap(con), got)
				}
			}
			return outs, true
		}
	}
	for i := 0; i < vis.NumMethods(); i++ {
		name := vis.Method(i).Name()
		fn := c.P.visitorMethod(col, name)
		if fn == nil {
			c.V("anchor:"+name, token.NoPos, "the collector does not define %s", name)
			continue
		}
		ct := vis.Method(i).Type().(*types.Signature).Params().At(0).Type()
		paths := cv.nested(ct)
		c.Sample("%s: nested content %v", name, paths)
		for range paths {
			c.Obl("nested content paths")
		}
		c.Obl("visit methods")
		recv := flow.Sym("param", "collector", fn.Params[0].Type())
		con := flow.Sym("param", "content", ct)
		sec := flow.Field(recv, secField, secT)
		if name == "VisitSection" {
			// a section is visited by the collector bound to it
			sec = con
		}
		r := &flow.Rule{Call: handler(sec)}
		cv.hooks(r)
		isTarget := typeName(ct) == "Target"
		returns := 0
		r.Return = func(x *flow.Exec, s *flow.State, res []*flow.Term, pos token.Pos) {
			if errPath(s, res) {
				return
			}
			returns++
			typ := ct
			if p, ok := ct.(*types.Pointer); ok {
				typ = p.Elem()
			}
			if sl, ok := typ.Underlying().(*types.Struct); ok || len(paths) > 0 {
				_ = sl
				if ok, miss := cv.covered(s, con, typ); !ok {
					extra := ""
					for _, it := range s.Items("wrongsec") {
						extra += "; it was visited with a collector for another section: " + it.Terms[0].String()
					}
					c.VP("uncollected:"+name+":"+miss, pos, s.Path(), "%s can succeed without collecting targets in %s%s", name, miss, extra)
				}
			}
			if isTarget {
				checkTargetTag(c, x, s, con, sec, pos)
			}
		}
		if name == "VisitSection" {
			x := c.exec(r)
			x.Run(fn, []*flow.Term{recv, con}, func(s *flow.State) {
				s.StoreTo(flow.FieldAddr(recv, secField, secT), con)
			})
			c.done(x)
		} else {
			x := c.exec(r)
			x.Run(fn, []*flow.Term{recv, con}, nil)
			c.done(x)
		}
		if returns == 0 {
			c.V("noreturn:"+name, fn.Pos(), "%s never succeeds", name)
		}
	}
	// every load collects
	for _, m := range []string{"LoadFile", "LoadFileIn"} {
		fn := c.meth(mod+"/load", "Processor", m)
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			con, v := cv.visitCall(ci)
			if con == nil {
				if ci.Callee != nil && isExportedEval(ci.Callee.Name()) {
					outs := forkErr(x, s, ci)
					return outs, true
				}
				return nil, false
			}
			outs := forkErr(x, s, ci)
			if v.Op == "iface" && types.Identical(v.Typ, types.NewPointer(col)) && secOf(s, v) == unwrap(con) {
				for _, o := range outs {
					o.St.AddSticky("collected", unwrap(con))
				}
			}
			return outs, true
		}
		r.Return = func(x *flow.Exec, s *flow.State, res []*flow.Term, pos token.Pos) {
			if errPath(s, res) || len(res) != 2 {
				return
			}
			c.Obl("loads that collect")
			if !s.Has("collected", unwrap(res[0])) {
				c.VP("load-not-collected:"+m, pos, s.Path(), "%s can succeed with a section whose targets were not collected", m)
			}
		}
		x := c.exec(r)
		x.Run(fn, nil, nil)
		c.done(x)
	}
	c.Need("nested content paths", 14)
	c.Need("visit methods", 15)
	c.Need("loads that collect", 2)
}

func isExportedEval(n string) bool { return n == "EvaluateFile" || n == "EvaluateNode" }

func checkTargetTag(c *C, x *flow.Exec, s *flow.State, con, sec *flow.Term, pos token.Pos) {
	tagT := c.P.named(mod, "Tag")
	tags := s.LoadField(sec, "Tags", types.NewSlice(tagT))
	orig := flow.Field(sec, "Tags", nil)
	c.Obl("target tag")
	bad := func(f string, a ...any) {
		c.VP("target-tag", pos, s.Path(), f, a...)
	}
	if tags.Op != "cat" || len(tags.Args) != 2 || tags.Args[0].Op != "spread" || tags.Args[0].Args[0] != orig || tags.Args[1].Op != "one" {
		bad("visiting a target must add exactly one tag to its section's tags; found %s", tags)
		return
	}
	tag := tags.Args[1].Args[0]
	want := map[string]*flow.Term{
		"Name":     flow.Field(con, "TagName", nil),
		"Title":    flow.Field(con, "Title", nil),
		"Location": flow.Field(con, "Location", nil),
		"Content":  flow.Field(con, "Content", nil),
		"Anchor":   flow.Field(con, "TagName", nil),
		"Section":  sec,
	}
	for _, f := range []string{"Name", "Title", "Location", "Content", "Anchor", "Section"} {
		if got := flow.Field(tag, f, nil); got != want[f] {
			bad("the tag of a target has %s = %s instead of %s", f, got, want[f])
		}
	}
}
