package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C14", Title: "A served request gets one complete response with the right status",
		Rule:  "Typestate analysis of the response writer through Server.ServeHTTP, with its helpers inlined and the loading of documents, loading of templates, rendering and writing cut at their calls, each of which may succeed or fail. On every path exactly one body is written: if a cut call failed, an error body made from that error, after WriteHeader(500) and without any other body before or after; otherwise the static file handler's, only where the search for the tag found nothing or the path has not the engine's extension; otherwise the contents of the buffer just rendered by the server's engine for the section of the first tag found, with the custom templates loaded before if there are any. The section comes from the server's input, the tag name from the request's path: for the path /, a path made of any name and the extension, and any other path, the name looked up is computed symbolically and must be index, that name, or none.",
		Trust: []string{"the error page template is complete (C18, C26)", "net/http sends status 200 with the first write"},
		Run:   runC14,
	})
}

const cmdPkg = mod + "/booklitcmd"

func runC14(c *C) {
	ch := newChain(c)
	srv := c.P.named(cmdPkg, "Server")
	serve := c.meth(cmdPkg, "Server", "ServeHTTP")
	find := c.meth(mod, "Section", "FindTag")
	tagT := c.P.named(mod, "Tag")
	strT := types.Typ[types.String]
	fld := func(names ...string) (string, types.Type) {
		for _, n := range names {
			if t := fieldTypeOf(srv, n); t != nil {
				return n, t
			}
		}
		c.V("anchor:Server."+names[0], token.NoPos, "the server has no %s", names[0])
		panic(abort{})
	}
	recv := flow.Sym("param", "server", types.NewPointer(srv))
	w := flow.Sym("param", "w", serve.Params[1].Type())
	req := flow.Sym("param", "r", serve.Params[2].Type())
	static, handlerT := fld("FileServer")
	in, _ := fld("In")
	tmpls, _ := fld("Templates")
	eng, engT := fld("Engine")
	own := func(s *flow.State, n string, t types.Type) *flow.Term { return s.LoadField(recv, n, t) }
	r := &flow.Rule{}
	fork := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo, ok func(*flow.State, *flow.Term)) []flow.Outcome {
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			e := o.Res
			if t, isT := ci.Result.(*types.Tuple); isT && t.Len() > 1 {
				e = flow.Sym("result", itoa(t.Len()-1), t.At(t.Len()-1).Type(), o.Res)
			}
			if o.St.IsNil(e) == 1 {
				if ok != nil {
					ok(o.St, o.Res)
				}
			} else {
				o.St.AddSticky("failed", e)
			}
		}
		return outs
	}
	bodies := func(s *flow.State) int { return s.Count("body") }
	pathOf := func(t *flow.Term) bool { // derived from the path of the request
		return t.Has(func(u *flow.Term) bool {
			return u.Op == "field" && u.Str == "Path" || u.Op == "deref" && u.Mentions(req)
		}) && t.Mentions(req)
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		f := ci.Callee
		hasW := false
		for _, a := range ci.Args {
			hasW = hasW || unwrap(a) == w
		}
		inMod := f != nil && x.InModule(f)
		last := func() types.Type {
			if f == nil {
				return nil
			}
			rs := f.Signature.Results()
			if rs.Len() == 0 {
				return nil
			}
			return rs.At(rs.Len() - 1).Type()
		}
		switch {
		case ci.Go:
			return nil, false
		case inMod && f.Pkg != nil && f.Pkg.Pkg.Path() == mod+"/load" && f.Signature.Recv() != nil && last() != nil && isErrType(last()):
			return fork(x, s, ci, func(s *flow.State, res *flow.Term) {
				t := flow.Sym("result", "0", ch.secT, res)
				s.AddSticky("loaded", t)
				okIn := false
				for _, a := range ci.Args {
					okIn = okIn || a == own(s, in, strT)
				}
				if !okIn {
					c.VP("input", ci.Pos, s.Path(), "the document served is not the server's input")
				}
			}), true
		case f == find:
			c.Obl("searches")
			if !s.Has("loaded", ci.Args[0]) {
				c.VP("root", ci.Pos, s.Path(), "the tag is searched in %s instead of the loaded document", ci.Args[0])
			}
			checkName(c, s, ci, pathOf)
			res := flow.Sym("tags", "", ci.Result, ci.Args...)
			s.AddSticky("search", res)
			return one(s, res), true
		case strings.HasSuffix(ci.Name, ").LoadTemplates"):
			if ci.Args[0] != own(s, eng, engT) || ci.Args[1] != own(s, tmpls, strT) {
				c.VP("templates", ci.Pos, s.Path(), "the templates of %s are loaded into %s", ci.Args[1], ci.Args[0])
			}
			if d := own(s, tmpls, strT); s.Decide(flow.Eq(d, flow.StrConst(""))) != 0 && s.Decide(flow.Eq(flow.Len(d), flow.Int(0))) != 0 {
				c.VP("templates", ci.Pos, s.Path(), "templates can be loaded from the current directory although none are given")
			}
			return fork(x, s, ci, func(s *flow.State, _ *flow.Term) { s.AddSticky("templates") }), true
		case strings.HasSuffix(ci.Name, ").RenderSection"):
			c.Obl("renderings")
			if ci.Args[0] != own(s, eng, engT) {
				c.VP("engine", ci.Pos, s.Path(), "the page is rendered by %s instead of the server's engine", ci.Args[0])
			}
			if !s.Has("templates") && s.Decide(flow.Eq(own(s, tmpls, strT), flow.StrConst(""))) != 1 {
				c.VP("untemplated", ci.Pos, s.Path(), "the page is rendered without loading the custom templates")
			}
			out, sec := unwrap(ci.Args[1]), ci.Args[2]
			if out == w {
				c.VP("early", ci.Pos, s.Path(), "the page is written while it is rendered, before it is known whether that succeeds")
			}
			if out.Op != "alloc" && !s.Has("reset", out) || s.Count("page") > 0 {
				c.VP("buffer", ci.Pos, s.Path(), "the page is rendered to a buffer which may already hold something")
			}
			right := false
			for _, it := range s.Items("search") {
				el := flow.Elem(it.Terms[0], flow.Int(0), tagT)
				right = right || sec == get(s, el, "Section", ch.secT) && s.Decide(flow.Eq(flow.Len(it.Terms[0]), flow.Int(0))) == 0
			}
			if !right {
				c.VP("section", ci.Pos, s.Path(), "the section rendered is %s, not that of a tag found", sec)
			}
			return fork(x, s, ci, func(s *flow.State, _ *flow.Term) { s.AddSticky("page", out) }), true
		case ci.Name == "(*bytes.Buffer).Reset":
			s.AddSticky("reset", ci.Args[0])
			return nil, false
		case strings.HasSuffix(ci.Name, ").WriteHeader") && hasW:
			code, known := ci.Args[1].IsInt()
			failed := s.Count("failed") > 0
			switch {
			case bodies(s) > 0:
				// too late to matter
			case failed && !(known && code == 500):
				c.VP("status", ci.Pos, s.Path(), "the response to a failed request has status %s", ci.Args[1])
			case !failed && !(known && code == 200):
				c.VP("status", ci.Pos, s.Path(), "a response without failure has status %s", ci.Args[1])
			}
			if bodies(s) == 0 && s.Count("status") == 0 {
				s.AddSticky("status", ci.Args[1])
			}
			return one(s, flow.Nil()), true
		case strings.HasSuffix(ci.Name, ").Header") && hasW:
			return nil, false
		case hasW && inMod && len(ci.Args) > 0 && f.Parent() == nil && (f.Signature.Recv() == nil || types.Identical(f.Signature.Recv().Type(), recv.Typ)) && f.Name() != "ErrorResponse":
			return nil, false // inlined
		case hasW:
			c.Obl("bodies")
			kind := "other"
			for _, a := range ci.Args {
				for _, it := range s.Items("page") {
					if a.Mentions(it.Terms[0]) {
						kind = "page"
					}
				}
				for _, it := range s.Items("failed") {
					if a.Mentions(it.Terms[0]) {
						kind = "error"
					}
				}
			}
			if strings.HasSuffix(ci.Name, ").ServeHTTP") && ci.Args[0].Mentions(own(s, static, handlerT)) {
				kind = "file"
			}
			if ci.Name == "net/http.Error" {
				if !isInt(ci.Args[2], 500) {
					c.VP("status", ci.Pos, s.Path(), "the response to a failed request has status %s", ci.Args[2])
				}
				if s.Count("status") == 0 {
					s.AddSticky("status", flow.Int(500))
				}
				kind = "error"
			}
			s.AddSticky("body:"+kind, flow.Int(int64(bodies(s))))
			s.AddSticky("body", flow.Int(int64(bodies(s))))
			failed := s.Count("failed") > 0
			switch kind {
			case "error":
				if !s.Has("status", flow.Int(500)) {
					c.VP("unset", ci.Pos, s.Path(), "an error response is written without setting its status first")
				}
				return one(s, flow.Nil()), true
			case "file":
				none := false
				for _, it := range s.Items("search") {
					none = none || s.Decide(flow.Eq(flow.Len(it.Terms[0]), flow.Int(0))) == 1
				}
				if !failed && !none && (s.Count("search") > 0 || !s.Has("plain")) {
					c.VP("file", ci.Pos, s.Path(), "the static file handler answers although a section may match")
				}
				return one(s, flow.Nil()), true
			case "page":
				if len(ci.Args) > 0 && ci.Result != nil {
					if t, ok := ci.Result.(*types.Tuple); ok && t.Len() == 0 {
						return nil, false
					}
				}
				outs := forkErr(x, s, ci)
				return outs, true
			}
			c.VP("body", ci.Pos, s.Path(), "%s writes something which is neither the page rendered, the error nor a static file", ci.Name)
			return nil, false
		}
		return nil, false
	}
	// paths without the engine's extension name no section
	r.Branch = func(x *flow.Exec, s *flow.State, cond *flow.Term, taken bool, ins *ssa.If) {
		k := cond
		neg := false
		for k.Op == "not" {
			k, neg = k.Args[0], !neg
		}
		if taken == neg && k.Mentions(req) && extTest(k) {
			s.AddSticky("plain")
		}
	}
	_, exits := c.run(r, serve, []*flow.Term{recv, w, req}, nil)
	for _, e := range exits {
		c.Obl("ways out")
		s := e.St
		n := bodies(s)
		failed := s.Count("failed") > 0
		switch {
		case n == 0:
			c.VP("silent", e.Pos, s.Path(), "a request can be answered with nothing")
		case n > 1:
			c.VP("twice", e.Pos, s.Path(), "a request can be answered twice")
		case failed && s.Count("body:error") != 1:
			c.VP("hidden", e.Pos, s.Path(), "a failed request is answered without an error page")
		case !failed && s.Count("body:error") > 0:
			c.VP("wrong", e.Pos, s.Path(), "a request which did not fail is answered with an error")
		}
	}
	c.Need("ways out", 4)
	c.Need("bodies", 3)
	c.Need("renderings", 1)
	c.Need("searches", 1)
	c.requestPaths(srv, serve, find, static)
	// the error page is written from the error given
	resp := c.fnc(mod, "ErrorResponse")
	rw, re := flow.Sym("param", "w", resp.Params[0].Type()), flow.Sym("param", "err", resp.Params[1].Type())
	r2 := &flow.Rule{}
	r2.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if strings.HasSuffix(ci.Name, ".WriteHeader") && unwrap(ci.Args[0]) == rw && !isInt(ci.Args[1], 500) {
			c.VP("response:status", ci.Pos, s.Path(), "the error page sets status %s", ci.Args[1])
		}
		if strings.HasSuffix(ci.Name, "template.Template).Execute") || strings.HasSuffix(ci.Name, "template.Template).ExecuteTemplate") {
			s.AddSticky("executed", unwrap(ci.Args[len(ci.Args)-1]))
			return forkErr(x, s, ci), true
		}
		return nil, false
	}
	_, exits = c.run(r2, resp, []*flow.Term{rw, re}, nil)
	for _, e := range exits {
		c.Obl("error pages")
		if !e.St.Has("executed", re) {
			c.VP("response:data", e.Pos, e.St.Path(), "ErrorResponse does not render the error it is given")
		}
	}
	c.Need("error pages", 1)
}

// extTest recognises a test for the extension of a path.
func extTest(k *flow.Term) bool {
	return k.Has(func(u *flow.Term) bool {
		n := flow.CallName(u)
		return strings.HasPrefix(n, "strings.HasSuffix") || strings.HasPrefix(n, "strings.CutSuffix") || strings.HasSuffix(n, "path.Ext") || strings.HasSuffix(n, "filepath.Ext")
	})
}

// checkName checks how the tag searched for is made from the request's path.
func checkName(c *C, s *flow.State, ci *flow.CallInfo, pathOf func(*flow.Term) bool) {
	name := ci.Args[1]
	ext, index := false, false
	var walk func(t *flow.Term) bool
	walk = func(t *flow.Term) bool {
		if str, ok := t.IsStr(); ok {
			index = index || strings.Contains(str, "index")
			return true
		}
		if t.Op == "strcat" || t.Op == "cat" {
			for _, a := range t.Args {
				if v, ok := a.IsStr(); ok && strings.Contains(v, "index") {
					index = true
				}
			}
			return true
		}
		if n := flow.CallName(t); n != "" {
			switch {
			case strings.HasPrefix(n, "strings.TrimSuffix"), strings.HasPrefix(n, "strings.CutSuffix"):
				ext = true
				return walk(t.Args[0])
			case strings.HasPrefix(n, "strings.TrimPrefix"), strings.HasPrefix(n, "strings.CutPrefix"), strings.HasPrefix(n, "strings.Trim"):
				return walk(t.Args[0])
			}
			return false
		}
		switch t.Op {
		case "result", "slice", "substr":
			if t.Op == "slice" || t.Op == "substr" {
				ext = true
			}
			return walk(t.Args[0])
		}
		return pathOf(t)
	}
	if !walk(name) || !ext && !index {
		c.VP("name", ci.Pos, s.Path(), "the section asked for is looked up as %s", name)
	}
}
