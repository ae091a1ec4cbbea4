package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C42", Title: "Describing an error tells everything there is to tell about it",
		Rule:  "Every error type of the module with a detailed form is found through the type system. On every path its message depends on each text and nested error it carries; its printed form writes to the given writer its message headed by its own location, the excerpt of every location it carries (through summaries of loops, of every element of lists of locations along with the file, and the name of every suggested tag) and, for a failed function, the detailed form of the function's error exactly where it has one and the error itself otherwise; its page form executes a template with the error itself as data into the given writer. The helpers of the error templates return what describing the very error or location given wrote, in detail wherever errors.As finds a detailed form and as plain message only where it does not; an error response executes, with the very error, a built-in template which shows it. A location's heading depends on its file, on its line unless there is none, and on the message. All formatting functions of the module (and functions passing a format on) are given constant formats using as many operands as they are given.",
		Trust: []string{"fmt prints its operands", "errors.As", "textio.NewPrefixWriter passes on what is written to it"},
		Run:   runC42,
	})
}

type describer struct {
	c      *C
	locT   types.Type
	tagT   types.Type
	pretty *types.Interface
	heads  *ssa.Function // Annotate
	ex     *ssa.Function // AnnotateLocation
}

func runC42(c *C) {
	d := &describer{c: c, pretty: c.P.iface(mod, "PrettyError")}
	loc, tag := c.P.named(mod, "ErrorLocation"), c.P.named(mod, "Tag")
	if d.pretty == nil || loc == nil || tag == nil {
		c.V("anchor:PrettyError", token.NoPos, "errors no longer have a detailed form")
		return
	}
	d.locT, d.tagT = loc, tag
	d.heads = c.meth(mod, "ErrorLocation", "Annotate")
	d.ex = c.meth(mod, "ErrorLocation", "AnnotateLocation")
	scope := c.P.Pkgs[mod].Types.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || structOf(tn.Type()) == nil {
			continue
		}
		t := tn.Type()
		if !types.Implements(t, d.pretty) {
			if t = types.NewPointer(t); !types.Implements(t, d.pretty) {
				continue
			}
		}
		d.message(t)
		d.printed(t)
		d.page(t)
	}
	d.heading()
	d.helpers()
	d.response()
	c.formats()
	c.Need("formats", 10)
	c.Need("messages", 4)
	c.Need("printed descriptions", 4)
	c.Need("described on pages", 4)
	c.Need("template helpers", 2)
	c.Need("error responses", 1)
	c.Need("headings", 2)
}

func (d *describer) args(fn *ssa.Function) []*flow.Term {
	out := []*flow.Term{}
	for _, p := range fn.Params {
		out = append(out, flow.Sym("param", p.Name(), p.Type()))
	}
	return out
}

// texts are the fields a message has to tell.
func (d *describer) texts(t types.Type) []*types.Var {
	out := []*types.Var{}
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 || types.Identical(f.Type().Underlying(), errI()) {
			out = append(out, f)
		}
	}
	return out
}

func has(t, u *flow.Term) bool {
	return t != nil && t.Has(func(v *flow.Term) bool { return v == u })
}

// shows reports whether a text shows another one in full.
func shows(t, u *flow.Term) bool {
	if t == nil || t == u {
		return t != nil
	}
	switch t.Op {
	case "slice", "substr", "len", "eq", "lt", "not":
		return false
	}
	switch n := flow.CallName(t); n {
	case "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Rel", "path.Base", "path.Dir", "path.Ext",
		"strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle", "strings.Replace", "strings.ReplaceAll", "strings.Map",
		"strings.Split", "strings.SplitN", "strings.Fields", "strings.Cut", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.Trim",
		"strings.TrimFunc", "strings.Index", "strings.Count", "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		return false
	}
	for _, a := range t.Args {
		if shows(a, u) {
			return true
		}
	}
	return false
}

func (d *describer) message(t types.Type) {
	c := d.c
	fn := c.methodOf(t, "Error")
	if fn == nil {
		return
	}
	args := d.args(fn)
	_, exits := c.run(&flow.Rule{Keep: loopSyms, Call: c.builder3()}, fn, args, nil)
	for _, e := range exits {
		c.Obl("messages")
		for _, f := range d.texts(t) {
			if v := get(e.St, args[0], f.Name(), f.Type()); !shows(e.Res[0], v) {
				c.VP("message:"+typeName(t), e.Pos, e.St.Path(), "the message of a %s does not tell its %s", typeName(t), f.Name())
			}
		}
	}
}

// builder3 models text put together in buffers.
func (c *C) builder3() func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	return func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		return c.builder(x, s, ci)
	}
}

func (d *describer) printed(t types.Type) {
	c := d.c
	fn := c.methodOf(t, "PrettyPrint")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	name := typeName(t)
	args := d.args(fn)
	self, out := args[0], args[1]
	tells := func(s *flow.State, v *flow.Term) bool {
		for _, i := range s.Items("shown") {
			if shows(i.Terms[0], v) {
				return true
			}
		}
		return false
	}
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if o, ok := c.builder(x, s, ci); ok {
			return o, ok
		}
		if _, outs := asTarget(x, s, ci); outs != nil {
			return outs, true
		}
		to := func(i int) bool { return i < len(ci.Args) && has(ci.Args[i], out) }
		switch {
		case ci.Callee == d.heads:
			return one(s, flow.Sym("pure", "annotate", types.Typ[types.String], ci.Args...)), true
		case ci.Callee == d.ex:
			if to(1) {
				s.Add("excerpt", ci.Args[0])
			}
			return one(s, flow.Nil()), true
		case writesTo(ci) == 0:
			if to(0) {
				for _, a := range ci.Args[1:] {
					s.Add("shown", a)
				}
			}
			return nil, false
		case strings.HasSuffix(ci.Name, ").PrettyPrint") && to(1):
			if s.IsNil(ci.Args[0]) != 0 {
				c.VP("print-nil:"+name, ci.Pos, s.Path(), "a detailed form there may not be is printed for a %s", name)
			}
			s.Add("detailed", unwrap(ci.Args[0]))
			return one(s, flow.Nil()), true
		}
		return nil, false
	}
	r.BackEdge = func(x *flow.Exec, s *flow.State, l *flow.Loop) {
		coll, e, et := loopElem(x, s, l)
		if coll == nil {
			return
		}
		ok := true
		switch {
		case types.Identical(et, d.locT):
			ok = s.Has("excerpt", e) && tells(s, flow.Field(e, "FilePath", types.Typ[types.String]))
			for _, i := range s.Items("shown") {
				ok = ok || s.Has("excerpt", e) && d.headed(i.Terms[0], e)
			}
		case types.Identical(et, d.tagT):
			ok = tells(s, flow.Field(e, "Name", types.Typ[types.String]))
		}
		if !ok {
			s.Add("miss:"+l.Key, coll)
		}
	}
	r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
		if coll, _, _ := loopElem(x, s, l); exhausted && coll != nil && !s.Has("miss:"+l.Key, coll) {
			s.Add("all", coll)
		}
	}
	_, exits := c.run(r, fn, args, nil)
	st := structOf(t)
	for _, e := range exits {
		c.Obl("printed descriptions")
		s := e.St
		bad := func(f string, a ...any) {
			c.VP("print:"+name, fn.Pos(), s.Path(), "the printed description of a %s "+f, append([]any{name}, a...)...)
		}
		whole := false
		for _, i := range s.Items("shown") {
			whole = whole || i.Terms[0].Has(func(u *flow.Term) bool {
				switch {
				case u.Op == "iface" && u.Args[0] == self:
					return true
				case (u.Op == "call" || u.Op == "pure") && strings.HasSuffix(u.Str, "Error") && len(u.Args) == 1 && unwrap(u.Args[0]) == self:
					return true
				}
				return false
			})
		}
		for _, f := range d.texts(t) {
			v := get(s, self, f.Name(), f.Type())
			detailed := s.Has("detailed", unwrap(v))
			for _, i := range s.Items("detailed") {
				detailed = detailed || shows(i.Terms[0], v)
			}
			if !whole && !tells(s, v) && !detailed {
				bad("does not tell its %s", f.Name())
			}
			if name == "FailedFunctionError" && types.Identical(f.Type().Underlying(), errI()) && !detailed && !d.plain(s, v) {
				bad("shows the function's error just as its message although it may have a detailed form")
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := get(s, self, f.Name(), f.Type())
			switch {
			case types.Identical(f.Type(), d.locT):
				if !s.Has("excerpt", v) {
					bad("does not show the place of its %s", f.Name())
				}
				if f.Embedded() {
					headed := false
					for _, i := range s.Items("shown") {
						headed = headed || d.headed(i.Terms[0], v)
					}
					if !headed {
						bad("does not tell its file and line")
					}
				}
			case sliceOf(f.Type(), d.locT), sliceOf(f.Type(), d.tagT):
				if !s.Has("all", v) && s.IsNil(v) != 1 && s.Decide(flow.Eq(flow.Len(v), flow.Int(0))) != 1 {
					bad("does not show all of its %s", f.Name())
				}
			}
		}
	}
	if len(exits) == 0 {
		c.V("print:"+name, fn.Pos(), "the printed description of a %s cannot be decided", name)
	}
}

// writesTo is the argument a call writes the others to.
func writesTo(ci *flow.CallInfo) int {
	switch {
	case len(ci.Args) < 2:
		return -1
	case ci.Name == "fmt.Fprint", ci.Name == "fmt.Fprintf", ci.Name == "fmt.Fprintln", ci.Name == "io.WriteString", ci.Name == "io.Copy",
		strings.HasSuffix(ci.Name, ").Write"), strings.HasSuffix(ci.Name, ").WriteString"):
		return 0
	}
	return -1
}

// plain: the error is known to have no detailed form.
func (d *describer) plain(s *flow.State, v *flow.Term) bool {
	n := d.c.P.named(mod, "PrettyError")
	return s.Decide(flow.TypeIs(v, n)) == 0 || s.Decide(flow.Sym("as", flow.TypeKey(n), types.Typ[types.Bool], v)) == 0 || s.IsNil(v) == 1
}

func (d *describer) headed(t, loc *flow.Term) bool {
	return t.Has(func(u *flow.Term) bool { return u.Op == "pure" && u.Str == "annotate" && u.Args[0] == loc })
}

func sliceOf(t, e types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), e)
}

// executes models executing a template.
func (d *describer) executes(s *flow.State, x *flow.Exec, ci *flow.CallInfo) []flow.Outcome {
	switch {
	case strings.HasSuffix(ci.Name, "template.Template).Lookup"):
		t := ci.Result
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		return one(s, flow.Sym("lookedup", "", t, ci.Args[0], ci.Args[1]))
	case strings.HasSuffix(ci.Name, "template.Template).Execute"), strings.HasSuffix(ci.Name, "template.Template).ExecuteTemplate"):
		name := flow.Nil()
		if strings.HasSuffix(ci.Name, "ExecuteTemplate") {
			name = ci.Args[2]
		} else if ci.Args[0].Op == "lookedup" {
			name = ci.Args[0].Args[1]
		}
		s.AddSticky("executed", unwrap(ci.Args[1]), name, unwrap(ci.Args[len(ci.Args)-1]))
		outs := forkErr(x, s, ci)
		if len(outs) == 2 {
			outs[1].St.AddSticky("unexecuted", outs[1].Res)
		}
		return outs
	}
	return nil
}

func (d *describer) page(t types.Type) {
	c := d.c
	fn := c.methodOf(t, "PrettyHTML")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	args := d.args(fn)
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if o := d.executes(s, x, ci); o != nil {
			return o, true
		}
		return d.copies(x, s, ci)
	}}
	_, exits := c.run(r, fn, args, nil)
	for _, e := range exits {
		if e.St.IsNil(e.Res[0]) == 0 {
			continue
		}
		c.Obl("described on pages")
		ok := false
		for _, i := range e.St.Items("executed") {
			ok = ok || d.reaches(e.St, i.Terms[0], args[1]) && i.Terms[2] == args[0]
		}
		if !ok {
			c.VP("page:"+typeName(t), e.Pos, e.St.Path(), "the description of a %s on a page does not show the error", typeName(t))
		}
	}
}

// copies notes what is written elsewhere through a buffer.
func (d *describer) copies(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	switch ci.Name {
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return one(s, flow.Sym("written", "", types.Typ[types.String], unwrap(ci.Args[0]))), true
	case "(*bytes.Buffer).WriteTo", "io.Copy", "fmt.Fprint", "fmt.Fprintf", "io.WriteString":
		if len(ci.Args) >= 2 {
			a, b := unwrap(ci.Args[0]), unwrap(ci.Args[1])
			if ci.Name == "(*bytes.Buffer).WriteTo" {
				a, b = b, a
			}
			for _, t := range append([]*flow.Term{b}, ci.Args[2:]...) {
				t.Has(func(u *flow.Term) bool {
					if u.Op == "alloc" {
						s.AddSticky("copied", a, u)
					}
					return false
				})
			}
		}
	}
	if strings.HasSuffix(ci.Name, ").Write") && len(ci.Args) == 2 {
		a := unwrap(ci.Args[0])
		ci.Args[1].Has(func(u *flow.Term) bool {
			if u.Op == "alloc" {
				s.AddSticky("copied", a, u)
			}
			return false
		})
	}
	return nil, false
}

// reaches: what is written to w ends up in out.
func (d *describer) reaches(s *flow.State, w, out *flow.Term) bool {
	if has(w, out) {
		return true
	}
	for _, i := range s.Items("copied") {
		if i.Terms[1] == w && has(i.Terms[0], out) {
			return true
		}
	}
	return false
}

// heading: locations are headed by file and line.
func (d *describer) heading() {
	c := d.c
	args := d.args(d.heads)
	_, exits := c.run(&flow.Rule{Keep: loopSyms, Call: c.builder3()}, d.heads, args, nil)
	intT := types.Typ[types.Int]
	for _, e := range exits {
		c.Obl("headings")
		s := e.St
		node := get(s, args[0], "NodeLocation", fieldTypeOf(d.locT, "NodeLocation"))
		line := get(s, node, "Line", intT)
		if !shows(e.Res[0], get(s, args[0], "FilePath", types.Typ[types.String])) {
			c.VP("heading", e.Pos, s.Path(), "the heading of an error does not tell the file")
		}
		if s.Decide(flow.Eq(line, flow.Int(0))) != 1 && !has(e.Res[0], line) {
			c.VP("heading", e.Pos, s.Path(), "the heading of an error does not tell the line")
		}
		for _, a := range args[1:] {
			if !shows(e.Res[0], a) {
				c.VP("heading", e.Pos, s.Path(), "the heading of an error drops %s", a)
			}
		}
	}
}

// helpers: what error templates call to show errors and locations.
func (d *describer) helpers() {
	c := d.c
	errT := types.Universe.Lookup("error").Type()
	prettyN := c.P.named(mod, "PrettyError")
	annotated := c.meth(mod, "ErrorLocation", "AnnotatedHTML")
	for _, fe := range c.templateFuncs(mod) {
		fn := c.behind(fe.Fn)
		ps := fn.Params
		if len(ps) > 1 && fn.Signature.Recv() != nil {
			ps = ps[1:]
		}
		if len(ps) != 1 || fn.Signature.Results().Len() == 0 {
			continue
		}
		isErr, isLoc := types.Identical(ps[0].Type(), errT), types.Identical(ps[0].Type(), d.locT)
		if !isErr && !isLoc {
			continue
		}
		arg := flow.Sym("param", ps[0].Name(), ps[0].Type())
		args := d.args(fn)
		args[len(args)-1] = arg
		asked := flow.Sym("as", flow.TypeKey(prettyN), types.Typ[types.Bool], arg)
		r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if _, outs := asTarget(x, s, ci); outs != nil {
				return outs, true
			}
			if ci.Callee == annotated || strings.HasSuffix(ci.Name, ").PrettyHTML") {
				s.AddSticky("described", unwrap(ci.Args[0]), unwrap(ci.Args[1]))
				return forkErr(x, s, ci), true
			}
			if i := writesTo(ci); i >= 0 {
				for _, a := range ci.Args[i+1:] {
					s.AddSticky("wrote", unwrap(ci.Args[i]), a)
				}
			}
			return d.copies(x, s, ci)
		}}
		_, exits := c.run(r, fn, args, nil)
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				continue
			}
			c.Obl("template helpers")
			s, res := e.St, e.Res[0]
			bad := func(f string) { c.VP("helper:"+fe.Name, e.Pos, s.Path(), "%s", f) }
			shows := false
			for _, i := range s.Items("described") {
				v, w := i.Terms[0], i.Terms[1]
				of := v == arg || (v.Op == "asval" || v.Op == "ta") && v.Args[0] == arg
				shows = shows || of && res.Has(func(u *flow.Term) bool { return u.Op == "written" && u.Args[0] == w })
			}
			says := func(t *flow.Term) bool {
				return t.Has(func(u *flow.Term) bool {
					return (u.Op == "call" || u.Op == "pure" || u.Op == "result") && has(u, arg) && u != arg
				})
			}
			wrote := false
			for _, i := range s.Items("wrote") {
				w := i.Terms[0]
				wrote = wrote || says(i.Terms[1]) && res.Has(func(u *flow.Term) bool { return u.Op == "written" && u.Args[0] == w })
			}
			switch {
			case shows:
			case isLoc:
				bad("the excerpt of a location is not shown")
			case s.Decide(asked) != 0:
				bad("an error is shown just as its message although it may have a detailed form")
			case !says(res) && !wrote:
				bad("the message of an error is not shown")
			}
		}
	}
}

// response: error pages show the error.
func (d *describer) response() {
	c := d.c
	fn := c.fnc(mod, "ErrorResponse")
	args := d.args(fn)
	w, err := args[0], args[1]
	pkg := mod + "/errhtml"
	ts := c.templates(pkg)
	r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if o := d.executes(s, x, ci); o != nil {
			return o, true
		}
		if ci.Method != nil && len(ci.Args) > 0 && s.IsNil(ci.Args[0]) == 1 {
			c.VP("response-nil", ci.Pos, s.Path(), "an error response fails by describing a failure there was not")
		}
		if i := writesTo(ci); i >= 0 && has(ci.Args[i], w) {
			for _, a := range ci.Args[i+1:] {
				s.AddSticky("shown", a)
			}
		}
		return d.copies(x, s, ci)
	}}
	_, exits := c.run(r, fn, args, nil)
	for _, e := range exits {
		c.Obl("error responses")
		if un := e.St.Items("unexecuted"); len(un) > 0 {
			told := false
			for _, u := range un {
				for _, i := range e.St.Items("shown") {
					told = told || has(i.Terms[0], u.Terms[0]) || has(i.Terms[0], err)
				}
			}
			if !told {
				c.VP("response-failed", e.Pos, e.St.Path(), "an error page which cannot be shown is given up without saying so")
			}
		}
		ok := false
		for _, i := range e.St.Items("executed") {
			n, isStr := i.Terms[1].IsStr()
			if !isStr || i.Terms[2] != err {
				continue
			}
			shown := false
			for _, ev := range c.events(pkg, n, ts).events {
				shown = shown || ev.Expr == "error($)" && len(ev.Conds) == 0
			}
			ok = ok || shown && d.reaches(e.St, i.Terms[0], w)
			ok = ok || shown && !d.reaches(e.St, i.Terms[0], w) && d.failed(e.St)
		}
		if !ok {
			c.VP("response", e.Pos, e.St.Path(), "an error response does not show the error")
		}
	}
}

// failed: something written instead as executing the template failed.
func (d *describer) failed(s *flow.State) bool {
	return s.Count("unexecuted") > 0
}
