package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C20", Title: "Errors and references point at the source which caused them",
		Rule:  "Every located error of calls, references, titles and files, on every path, must carry the path of the section concerned and the location of the construct concerned: the call, the reference (and every conflicting tag), both titles, the position the parser reports. When a function is called the section's invocation location must be that of the call, even after evaluating arguments, which may set it to anything; nothing else sets it. References, targets, titles and inline sections which plugins make, wherever they are inside a result or on the way to the section, must carry that location, tags the location they are given, and the syntax of a call the position of its parser action.",
		Trust: []string{"the parser's position of an action is the start of its match", "the parser reports where it failed", "plugins outside the repository keep the location they are given"},
		Run:   runC20,
	})
}

type locator struct {
	c    *C
	secN *types.Named
	secP types.Type
	locT types.Type
	errT *types.Named // ErrorLocation
}

func (l *locator) invoked(sec *flow.Term) *flow.Term {
	return flow.Field(sec, "InvokeLocation", l.locT)
}

// located compares the location of an error; which is empty if it fits.
func (l *locator) located(s *flow.State, loc, file, at *flow.Term) string {
	if got := l.sub(s, loc, "FilePath"); !l.isFile(s, got, file) {
		return "is located in file " + got.String()
	}
	if got := l.sub(s, loc, "NodeLocation"); !sameVal(s, got, at, l.locT) {
		return "is located at " + got.String()
	}
	return ""
}

func (l *locator) isFile(s *flow.State, got, file *flow.Term) bool {
	return got == file || s.Decide(flow.Eq(got, file)) == 1
}

func (l *locator) sub(s *flow.State, t *flow.Term, f string) *flow.Term {
	return get(s, t, f, fieldTypeOf(l.errT, f))
}

// location finds the location an error carries.
func (l *locator) location(s *flow.State, e *flow.Term) *flow.Term {
	t := e
	for i := 0; i < 4; i++ {
		t = unwrap(t)
		typ := t.Typ
		if typ == nil {
			break
		}
		if t.Op == "alloc" {
			typ = t.Typ
		} else if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); types.Identical(f.Type(), l.errT) && (f.Embedded() || f.Name() == l.errT.Obj().Name()) {
				return get(s, t, f.Name(), f.Type())
			}
		}
		break
	}
	// wrapped in another error
	var found *flow.Term
	e.Walk(func(u *flow.Term) {
		if u != e && u.Op == "iface" && found == nil {
			found = l.location(s, u)
		}
	})
	return found
}

func newLocator(c *C) *locator {
	l := &locator{c: c, secN: c.P.named(mod, "Section"), errT: c.P.named(mod, "ErrorLocation")}
	if n := c.P.named(astPkg, "Location"); n != nil {
		l.locT = n
	}
	if l.secN == nil || l.locT == nil || l.errT == nil {
		c.V("anchor:Location", token.NoPos, "there are no sections, locations or located errors any more")
		panic(abort{})
	}
	l.secP = types.NewPointer(l.secN)
	return l
}

func runC20(c *C) {
	l := newLocator(c)
	l.calls()
	l.references()
	l.plugins()
	l.titles()
	l.targets()
	l.files()
	l.parsing()
	l.paths()
	// nobody else sets the location of calls
	ok := c.P.reach(c.P.visitorMethod(c.P.named(mod+"/stages", "Evaluate"), "VisitInvoke"))
	for _, st := range c.fieldStores(l.secN, "InvokeLocation") {
		c.Obl("stores of the invocation location")
		if !ok[st.Fn] && c.P.live()[st.Fn] && !st.Fresh {
			c.V("store:"+st.Fn.Name(), st.Instr.Pos(), "%s sets the invocation location of a section", short(st.Fn.String()))
		}
	}
	c.Need("stores of the invocation location", 1)
}

// calls: failing and calling.
func (l *locator) calls() {
	c := l.c
	m := newEvalModel(c)
	pretty := c.P.iface(mod, "PrettyError")
	var prettyT types.Type
	if n := c.P.named(mod, "PrettyError"); n != nil {
		prettyT = n
	}
	if pretty == nil {
		c.V("anchor:PrettyError", token.NoPos, "there are no errors which print themselves any more")
		return
	}
	shapes := []invokeShape{
		{nil, false, 0, []string{"error"}},
		{[]string{"content"}, false, 1, []string{"content", "error"}},
		{[]string{"string"}, true, 3, []string{"content", "error"}},
		{[]string{"node", "content"}, false, 2, []string{"content"}},
		{[]string{"string", "content"}, true, 2, []string{}},
		{[]string{"node"}, false, 1, []string{"error"}},
	}
	for _, sh := range shapes {
		v := newInvokeModel(c, m, sh, sh.given == 0)
		if v == nil {
			return
		}
		v.quiet = true
		here := flow.Field(v.orig, "Location", l.locT)
		addr := flow.FieldAddr(v.section, "InvokeLocation", l.locT)
		r := &flow.Rule{Unroll: 40}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if t, ok := filePathCall(c, ci); ok {
				return one(s, t), true
			}
			if strings.HasSuffix(ci.Name, "(reflect.Value).Call") {
				c.Obl("calls of functions")
				if got := s.Load(addr, l.locT); !sameVal(s, got, here, l.locT) {
					what := "the location of a function called by an argument"
					if got.Op != "clobbered" {
						what = got.String()
					}
					c.VP("invoked", ci.Pos, s.Path(), "a function is called while the section's invocation location is %s instead of that of the call", what)
				}
			}
			if ci.Name == "errors.As" {
				// found or not
				s2 := s.Clone()
				s.AddSticky("pretty", flow.Bool(true))
				if p := unwrap(ci.Args[1]); p.Op == "alloc" {
					s.StoreTo(p, flow.Sym("as", "", prettyT, unwrap(ci.Args[0])))
				}
				s2.AddSticky("pretty", flow.Bool(false))
				return []flow.Outcome{{St: s, Res: flow.Bool(true)}, {St: s2, Res: flow.Bool(false)}}, true
			}
			if node, _ := m.visit(ci); node != nil {
				outs, ok := v.call(x, s, ci)
				for _, o := range outs {
					o.St.StoreTo(addr, flow.Sym("clobbered", "", l.locT, node))
				}
				return outs, ok
			}
			return v.call(x, s, ci)
		}
		_, exits := v.run(r)
		for _, e := range exits {
			s := e.St
			if s.IsNil(e.Res[0]) == 1 {
				continue
			}
			report := func(what string) {
				loc := l.location(s, e.Res[0])
				if loc == nil {
					c.VP("unlocated:"+what, e.Pos, s.Path(), "the error of %s has no location: %s", what, e.Res[0])
				} else if w := l.located(s, loc, filePathOf(v.section), here); w != "" {
					c.VP("located:"+what, e.Pos, s.Path(), "the error of %s %s", what, w)
				}
			}
			none := true
			for i := range v.plugins {
				none = none && s.Decide(v.valid(v.method(i, v.name()))) == 0
			}
			if none {
				c.Obl("undefined functions")
				report("an undefined function")
				continue
			}
			if s.Count("called") == 0 {
				continue
			}
			n := len(sh.results) - 1
			if n < 0 || sh.results[n] != "error" {
				continue
			}
			c.Obl("failing functions")
			o := v.outcome(n)
			res := unwrap(e.Res[0])
			isPretty := s.Decide(flow.TypeIs(o, prettyT)) == 1 || s.Has("pretty", flow.Bool(true))
			notPretty := s.Decide(flow.TypeIs(o, prettyT)) == 0 || s.Has("pretty", flow.Bool(false))
			asIs := res == o || res.Op == "as" && res.Args[0] == o
			switch {
			case asIs && isPretty:
			case asIs:
				c.VP("unlocated:failing", e.Pos, s.Path(), "the error of a failing function is returned without the location of the call")
			default:
				if !notPretty {
					c.VP("relocated", e.Pos, s.Path(), "an error which may have a location already is given that of the call")
				}
				report("a failing function")
			}
		}
	}
	c.Need("calls of functions", 1)
	c.Need("undefined functions", 1)
	c.Need("failing functions", 1)
}

// references: unknown and ambiguous.
func (l *locator) references() {
	c := l.c
	fn := c.meth(mod, "Reference", "Tag")
	find := c.meth(mod, "Section", "FindTag")
	similar := c.P.method(mod, "Section", "SimilarTags")
	refN, tagT := c.P.named(mod, "Reference"), c.P.named(mod, "Tag")
	con := flow.Sym("param", "ref", types.NewPointer(refN))
	sec := flow.Field(con, "Section", fieldTypeOf(refN, "Section"))
	at := flow.Field(con, "Location", fieldTypeOf(refN, "Location"))
	tagsT := types.NewSlice(tagT)
	tags := flow.Sym("pure", "findtag", tagsT)
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		switch {
		case ci.Callee == find:
			return one(s, tags), true
		case similar != nil && ci.Callee == similar:
			return one(s, flow.Sym("pure", "similar", tagsT)), true
		}
		if t, ok := filePathCall(c, ci); ok {
			return one(s, t), true
		}
		return nil, false
	}
	x, exits := c.run(r, fn, []*flow.Term{con}, nil)
	for _, e := range exits {
		s := e.St
		if s.IsNil(e.Res[1]) == 1 {
			// made up: the tag is where the reference is
			if t := e.Res[0]; t.Op == "alloc" && s.Decide(flow.Eq(flow.Len(tags), flow.Int(1))) != 1 {
				c.Obl("made-up tags")
				if got := s.LoadField(t, "Location", l.locT); !sameVal(s, got, at, l.locT) {
					c.VP("madeup", e.Pos, s.Path(), "the tag made up for a broken reference is located at %s", got)
				}
			}
			continue
		}
		c.Obl("broken references")
		loc := l.location(s, e.Res[1])
		if loc == nil {
			c.VP("unlocated:reference", e.Pos, s.Path(), "the error of a broken reference has no location: %s", e.Res[1])
			continue
		}
		if w := l.located(s, loc, filePathOf(sec), at); w != "" {
			c.VP("located:reference", e.Pos, s.Path(), "the error of a broken reference %s", w)
		}
		v := unwrap(e.Res[1])
		if n, ok := types.Unalias(v.Typ).(*types.Named); ok && fieldTypeOf(n, "DefinedLocations") != nil {
			c.Obl("ambiguous references")
			if v.Op == "alloc" {
				v = s.Load(v, n)
			}
			if w := allLocations(c, x, s, flow.Field(v, "DefinedLocations", fieldTypeOf(n, "DefinedLocations")), tags, tagT, r); w != "" {
				c.VP("located:ambiguous", e.Pos, s.Path(), "the error of an ambiguous reference %s", w)
			}
		}
	}
	c.Need("broken references", 1)
	c.Need("ambiguous references", 1)
}

// plugins: what functions make is located at the call.
func (l *locator) plugins() {
	c := l.c
	set := c.meth(mod, "Section", "SetTitle")
	setters := map[*ssa.Function]int{set: 2}
	for _, n := range []string{"SetTag", "SetTagAnchored"} {
		if f := c.P.method(mod, "Section", n); f != nil {
			setters[f] = 3
		}
	}
	plug := c.P.iface(mod, "Plugin")
	refN, tgtN := c.P.named(mod, "Reference"), c.P.named(mod, "Target")
	made := func(t types.Type) string {
		switch {
		case refN != nil && types.Identical(t, refN):
			return "reference"
		case tgtN != nil && types.Identical(t, tgtN):
			return "target"
		}
		return ""
	}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			if f.Parent() != nil || f.Signature.Recv() == nil || !token.IsExported(f.Name()) || f.Synthetic != "" {
				continue
			}
			rt := f.Signature.Recv().Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			secField := ""
			if st, ok := rt.Underlying().(*types.Struct); ok && plug != nil && pk.PkgPath != mod && !strings.HasSuffix(pk.PkgPath, "/stages") {
				for i := 0; i < st.NumFields(); i++ {
					if types.Identical(st.Field(i).Type(), l.secP) && returnedAsPlugin(c, rt) {
						secField = st.Field(i).Name()
					}
				}
			}
			if secField == "" {
				continue
			}
			l.pluginFunc(f, secField, setters, made)
		}
	}
	c.Need("content made by plugins", 1)
	c.Need("titles set by plugins", 1)
	c.Need("duplicate titles", 1)
	c.Need("inline sections", 1)
}

// returnedAsPlugin: values of the type are what plugin factories make.
func returnedAsPlugin(c *C, t types.Type) bool {
	fac := c.P.named(mod, "PluginFactory")
	if fac == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	for _, f := range c.P.allFuncs(n.Obj().Pkg().Path()) {
		if f.Parent() != nil || f.Signature.Recv() != nil || !types.Identical(f.Signature, fac.Underlying()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if mi, ok := i.(*ssa.MakeInterface); ok {
					mt := mi.X.Type()
					if p, ok := mt.(*types.Pointer); ok {
						mt = p.Elem()
					}
					if types.Identical(mt, t) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (l *locator) pluginFunc(f *ssa.Function, secField string, setters map[*ssa.Function]int, made func(types.Type) string) {
	c := l.c
	args := []*flow.Term{}
	for _, p := range f.Params {
		args = append(args, flow.Sym("param", p.Name(), p.Type()))
	}
	sec := flow.Field(args[0], secField, l.secP)
	here := l.invoked(sec)
	name := short(f.String())
	// walk what is reachable from a value
	check := func(s *flow.State, pos token.Pos, t *flow.Term) {
		seen := map[*flow.Term]bool{}
		var walk func(t *flow.Term, depth int)
		walk = func(t *flow.Term, depth int) {
			if t == nil || seen[t] || depth > 12 {
				return
			}
			seen[t] = true
			switch t.Op {
			case "param", "field", "pure", "call", "result", "lookup", "evald", "elem":
				if t.Op == "elem" {
					break
				}
				return
			}
			typ := t.Typ
			if typ != nil && t.Op != "iface" {
				if k := made(typ); k != "" && (t.Op == "alloc" || t.Op == "struct" || t.Op == "upd" || t.Op == "zero") {
					c.Obl("content made by plugins")
					if got := get(s, t, "Location", l.locT); !sameVal(s, got, here, l.locT) {
						c.VP("made:"+k+":"+name, pos, s.Path(), "%s makes a %s located at %s instead of the call", name, k, got)
					}
				}
				if t.Op == "alloc" {
					if st, ok := typ.Underlying().(*types.Struct); ok && !types.Identical(typ, l.secN) {
						for i := 0; i < st.NumFields(); i++ {
							walk(s.LoadField(t, st.Field(i).Name(), st.Field(i).Type()), depth+1)
						}
					}
				}
			}
			for _, a := range t.Args {
				walk(a, depth+1)
			}
		}
		walk(t, 0)
	}
	r := &flow.Rule{Keep: loopSyms}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if t, ok := filePathCall(c, ci); ok {
			return one(s, t), true
		}
		if n, ok := setters[ci.Callee]; ok && len(ci.Args) > n {
			c.Obl("titles set by plugins")
			if got := ci.Args[n]; ci.Args[0] == sec && !sameVal(s, got, here, l.locT) {
				c.VP("title:"+name, ci.Pos, s.Path(), "%s calls %s with location %s instead of that of the call", name, ci.Callee.Name(), got)
			}
			return one(s, flow.Nil()), true
		}
		if strings.HasSuffix(ci.Name, ".EvaluateNode") && len(ci.Args) == 4 {
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				if ci.Args[1] == sec {
					o.St.AddSticky("inline", flow.Sym("result", "0", l.secP, o.Res))
				}
			}
			return outs, true
		}
		if (ci.Callee == nil || !x.InlineOK(s, ci.Callee)) && !strings.HasPrefix(ci.Name, "fmt.") {
			for _, a := range ci.Args {
				check(s, ci.Pos, a)
			}
		}
		return nil, false
	}
	_, exits := c.run(r, f, args, nil)
	for _, e := range exits {
		s := e.St
		failed := false
		for _, res := range e.Res {
			if isErrType(res.Typ) || res.Op == "iface" && types.Implements(res.Typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				if loc := l.location(s, res); loc != nil {
					failed = true
					c.Obl("duplicate titles")
					if w := l.located(s, loc, filePathOf(sec), here); w != "" {
						c.VP("located:"+name, e.Pos, s.Path(), "the error of %s %s", name, w)
					}
					l.others(s, e, res, sec, name)
				}
			}
			check(s, e.Pos, res)
		}
		if failed {
			continue
		}
		for _, it := range s.Items("inline") {
			sub := it.Terms[0]
			kids := s.LoadField(sec, "Children", fieldTypeOf(l.secN, "Children"))
			if !kids.Has(func(t *flow.Term) bool { return t == sub }) {
				continue
			}
			c.Obl("inline sections")
			if got := s.LoadField(sub, "Location", l.locT); !sameVal(s, got, here, l.locT) {
				c.VP("inline:"+name, e.Pos, s.Path(), "%s adds an inline section located at %s instead of the call", name, got)
			}
		}
	}
}

// others: further locations of an error are those of the section's title.
func (l *locator) others(s *flow.State, e exitRec, res, sec *flow.Term, name string) {
	v := unwrap(res)
	st, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !types.Identical(f.Type(), l.errT) || f.Embedded() {
			continue
		}
		l.c.Obl("earlier titles")
		loc := get(s, v, f.Name(), f.Type())
		if w := l.located(s, loc, filePathOf(sec), flow.Field(sec, "TitleLocation", l.locT)); w != "" {
			l.c.VP("earlier:"+name, e.Pos, s.Path(), "the %s of an error of %s %s", f.Name(), name, w)
		}
	}
}

// titles: setting titles and tags keeps the location.
func (l *locator) titles() {
	c := l.c
	strT := types.Typ[types.String]
	for _, n := range []string{"SetTitle", "SetTag", "SetTagAnchored"} {
		fn := c.meth(mod, "Section", n)
		for k := 0; k <= 2; k++ {
			if n != "SetTitle" && k > 1 {
				continue
			}
			args := []*flow.Term{}
			var loc *flow.Term
			for i, p := range fn.Params {
				t := flow.Sym("param", p.Name()+itoa(i), p.Type())
				if types.Identical(p.Type(), l.locT) {
					loc = t
				}
				if i == len(fn.Params)-1 && fn.Signature.Variadic() {
					ps := []*flow.Term{}
					for j := 0; j < k; j++ {
						ps = append(ps, flow.One(flow.Sym("param", "name"+itoa(j), strT)))
					}
					t = flow.Nil()
					if k > 0 {
						t = flow.Cat(p.Type(), ps...)
					}
				}
				args = append(args, t)
			}
			sec := args[0]
			tagsF := fieldTypeOf(l.secN, "Tags")
			if loc == nil || tagsF == nil {
				c.V("anchor:"+n, fn.Pos(), "%s takes no location any more", n)
				return
			}
			old := flow.Field(sec, "Tags", tagsF)
			r := &flow.Rule{Unroll: 20, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
				if ci.Callee != nil && ci.Callee.Signature.Recv() != nil && ci.Callee.Signature.Results().Len() == 1 && types.Identical(ci.Callee.Signature.Results().At(0).Type(), strT) {
					return one(s, flow.Sym("pure", "text", strT, ci.Args...)), true
				}
				return nil, false
			}}
			_, exits := c.run(r, fn, args, nil)
			for _, e := range exits {
				s := e.St
				c.Obl("tags set")
				var each func(t *flow.Term)
				each = func(t *flow.Term) {
					switch {
					case t == old || t.IsNil():
					case t.Op == "cat":
						for _, p := range t.Args {
							if p.Op != "one" {
								each(p.Args[0])
								continue
							}
							tag := p.Args[0]
							if got := get(s, tag, "Location", l.locT); !sameVal(s, got, loc, l.locT) {
								c.VP("tag:"+n, e.Pos, s.Path(), "%s adds a tag located at %s instead of the given location", n, got)
							}
							if got := get(s, tag, "Section", l.secP); got != sec {
								c.VP("tag:"+n, e.Pos, s.Path(), "%s adds a tag of section %s", n, got)
							}
						}
					}
				}
				each(s.LoadField(sec, "Tags", tagsF))
				if n == "SetTitle" {
					if got := s.LoadField(sec, "TitleLocation", l.locT); !sameVal(s, got, loc, l.locT) {
						c.VP("titleloc", e.Pos, s.Path(), "setting a title records location %s instead of the given one", got)
					}
				}
			}
		}
	}
	c.Need("tags set", 3)
}

// targets: their tags are located where they are.
func (l *locator) targets() {
	c := l.c
	col := c.P.named(mod+"/stages", "Collect")
	fn := c.Anchor(c.P.visitorMethod(col, "VisitTarget"), "Collect.VisitTarget")
	tgt := flow.Sym("param", "target", fn.Params[1].Type())
	recv := flow.Sym("param", "collector", fn.Params[0].Type())
	at := flow.Field(tgt, "Location", l.locT)
	r := &flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee != nil && (ci.Callee.Name() == "SetTag" || ci.Callee.Name() == "SetTagAnchored") && len(ci.Args) > 3 {
			c.Obl("tags of targets")
			if got := ci.Args[3]; !sameVal(s, got, at, l.locT) {
				c.VP("target", ci.Pos, s.Path(), "the tag of a target is located at %s instead of the target", got)
			}
			return one(s, flow.Nil()), true
		}
		if strings.HasSuffix(ci.Name, ".Visit") {
			return forkErr(x, s, ci), true
		}
		return nil, false
	}}
	c.run(r, fn, []*flow.Term{recv, tgt}, nil)
	c.Need("tags of targets", 1)
}

// files: parse errors of files.
func (l *locator) files() {
	c := l.c
	fn := c.meth(mod+"/load", "Processor", "EvaluateFile")
	unpack := c.fnc(astPkg, "UnpackError")
	args := []*flow.Term{}
	for _, p := range fn.Params {
		args = append(args, flow.Sym("param", p.Name(), p.Type()))
	}
	path := args[2]
	var perr *flow.Term
	r := &flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == unpack {
			e := unwrap(ci.Args[0])
			s.AddSticky("unpacked", e)
			perr = flow.Sym("pure", "unpacked", ci.Callee.Signature.Results().At(0).Type(), e)
			s2 := s.Clone()
			s2.AddSticky("foreign", e)
			// nobody but the parser makes the error
			return []flow.Outcome{{St: s, Res: flow.Sym("tuple", "", nil, perr, flow.Bool(true))}, {St: s2, Res: flow.Sym("tuple", "", nil, flow.Nil(), flow.Bool(false))}}, true
		}
		if ci.Callee != nil && ci.Callee.Pkg != nil && ci.Callee.Pkg.Pkg.Path() == astPkg && strings.HasPrefix(ci.Callee.Name(), "Parse") {
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				e := flow.Sym("result", "1", types.Universe.Lookup("error").Type(), o.Res)
				if o.St.IsNil(e) != 1 {
					o.St.AddSticky("unparsed", e)
				}
			}
			return outs, true
		}
		if strings.HasSuffix(ci.Name, ".Visit") {
			return forkErr(x, s, ci), true
		}
		return nil, false
	}}
	_, exits := c.run(r, fn, args, nil)
	for _, e := range exits {
		s := e.St
		if s.Count("unparsed") == 0 || s.Count("foreign") > 0 {
			continue
		}
		c.Obl("parse errors")
		loc := l.location(s, e.Res[1])
		if s.Count("unpacked") == 0 || loc == nil {
			c.VP("unlocated:parse", e.Pos, s.Path(), "a parse error is reported without its location: %s", e.Res[1])
			continue
		}
		at := get(s, perr, "Location", l.locT)
		if w := l.located(s, loc, path, at); w != "" {
			c.VP("located:parse", e.Pos, s.Path(), "a parse error %s", w)
		}
	}
	c.Need("parse errors", 1)
}

// parsing: positions become locations.
func (l *locator) parsing() {
	l.unpacking()
	l.parsedCalls()
}

func (l *locator) samePos() func(s *flow.State, loc, pos *flow.Term) string {
	return func(s *flow.State, loc, pos *flow.Term) string {
		for f, p := range map[string]string{"Line": "line", "Col": "col", "Offset": "offset"} {
			got := get(s, loc, f, types.Typ[types.Int])
			if got.Op != "field" || got.Str != p || got.Args[0] != pos {
				return f + " is " + got.String()
			}
		}
		return ""
	}
}

// unpacking: errors of the parser keep their position.
func (l *locator) unpacking() {
	c := l.c
	un := c.fnc(astPkg, "UnpackError")
	same := l.samePos()
	err := flow.Sym("param", "err", types.Universe.Lookup("error").Type())
	x, exits := c.run(&flow.Rule{Keep: loopSyms}, un, []*flow.Term{err}, nil)
	for _, e := range exits {
		if e.St.Decide(e.Res[1]) != 1 {
			// none of the parser's errors may be turned away
			c.Obl("errors not unpacked")
			if !l.notParsers(x, e.St, err) {
				c.VP("unpack-none", e.Pos, e.St.Path(), "an error is not unpacked although it may be one of the parser")
			}
			continue
		}
		c.Obl("unpacked errors")
		loc := get(e.St, e.Res[0], "Location", l.locT)
		line := get(e.St, loc, "Line", types.Typ[types.Int])
		if line.Op != "field" || line.Args[0].Op != "field" || line.Args[0].Str != "pos" {
			c.VP("unpack", e.Pos, e.St.Path(), "the line of a parse error is %s", line)
			continue
		}
		pos := line.Args[0]
		if w := same(e.St, loc, pos); w != "" {
			c.VP("unpack", e.Pos, e.St.Path(), "the location of a parse error is not the parser's position: %s", w)
		}
		// of the error whose message is shown
		inner := get(e.St, e.Res[0], "Inner", types.Universe.Lookup("error").Type())
		if inner.Op != "field" || pos.Op != "field" || inner.Args[0] != pos.Args[0] {
			c.VP("unpack", e.Pos, e.St.Path(), "a parse error is located at %s but its message is %s", pos, inner)
		}
	}
	c.Need("unpacked errors", 1)
}

// notParsers: the error is known not to hold an error of the parser.
func (l *locator) notParsers(x *flow.Exec, s *flow.State, err *flow.Term) bool {
	list, perr := l.c.P.named(astPkg, "errList"), l.c.P.named(astPkg, "parserError")
	if list == nil || perr == nil {
		return false
	}
	if s.Decide(flow.TypeIs(err, list)) == 0 || s.IsNil(err) == 1 {
		return true
	}
	one := func(s *flow.State, e *flow.Term) bool { return s.Decide(flow.TypeIs(e, types.NewPointer(perr))) == 0 }
	for key, sum := range x.LoopSums {
		over, elem, _ := sumElem(x, sum)
		if over == nil || !types.Identical(over.Typ, list) || !entire(over, err) || sum.Index == nil || s.Has("left:"+key) || !done(s, sum, over) {
			continue
		}
		all := true
		for _, it := range sum.On(s) {
			all = all && one(it.St, elem)
		}
		if all {
			return true
		}
	}
	v := flow.Sym("ta", "", list, err)
	return s.Decide(flow.Eq(flow.Len(v), flow.Int(0))) == 1 || one(s, flow.Elem(v, flow.Int(0), types.Universe.Lookup("error").Type()))
}

// done: a loop over a list has come to its end.
func done(s *flow.State, sum *flow.LoopSum, over *flow.Term) bool {
	if sum.Index.Op == "restidx" {
		return s.Decide(flow.Lt(flow.Int(0), flow.Len(sum.Index.Args[0]))) == 0
	}
	return s.Decide(flow.Lt(sum.Index, flow.Len(over))) == 0
}

// entire: all of a list, not a part of it.
func entire(over, of *flow.Term) bool {
	for over != of {
		switch over.Op {
		case "ta", "iface", "conv":
			over = over.Args[0]
		default:
			return false
		}
	}
	return true
}

// parsedCalls: calls know their position.
func (l *locator) parsedCalls() {
	c := l.c
	same := l.samePos()
	inv := c.P.named(astPkg, "Invoke")
	for _, f := range c.P.allFuncs(astPkg) {
		if f.Parent() != nil || f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "current" || !makes(f, inv) {
			continue
		}
		args := []*flow.Term{}
		for _, p := range f.Params {
			args = append(args, flow.Sym("param", p.Name(), p.Type()))
		}
		r := &flow.Rule{Keep: loopSyms}
		_, exits := c.run(r, f, args, nil)
		pt := fieldTypeOf(f.Params[0].Type(), "pos")
		for _, e := range exits {
			v := unwrap(e.Res[0])
			if v.IsNil() {
				continue
			}
			c.Obl("parsed calls")
			loc := get(e.St, v, "Location", l.locT)
			if w := same(e.St, loc, flow.Field(args[0], "pos", pt)); w != "" {
				c.VP("parsed", e.Pos, e.St.Path(), "the location of a parsed call is not its position: %s", w)
			}
		}
	}
	c.Need("parsed calls", 1)
}

// makes: the function converts values of the type to an interface.
func makes(f *ssa.Function, n *types.Named) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if mi, ok := i.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), n) {
				return true
			}
		}
	}
	return false
}

// paths: a section's file is its own or that of its parent.
func (l *locator) paths() {
	c := l.c
	fn := c.meth(mod, "Section", "FilePath")
	sec := flow.Sym("param", "section", l.secP)
	strT := types.Typ[types.String]
	parent := flow.Field(sec, "Parent", l.secP)
	r := &flow.Rule{Unroll: 20, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee == fn {
			return one(s, filePathOf(ci.Args[0])), true
		}
		return nil, false
	}}
	_, exits := c.run(r, fn, []*flow.Term{sec}, func(s *flow.State) {
		// no more than three levels, for loops
		gg := flow.Field(flow.Field(parent, "Parent", l.secP), "Parent", l.secP)
		s.Assume(flow.Eq(gg, flow.Nil()), true)
		s.Assume(flow.Eq(sec, flow.Nil()), false)
	})
	empty := flow.StrConst("")
	for _, e := range exits {
		c.Obl("file paths")
		s := e.St
		cur := sec
		for i := 0; ; i++ {
			p := flow.Field(cur, "Path", strT)
			up := flow.Field(cur, "Parent", l.secP)
			if e.Res[0] == filePathOf(cur) && i > 0 {
				break
			}
			if s.Decide(flow.Eq(p, empty)) == 0 {
				if e.Res[0] != p {
					c.VP("filepath", e.Pos, s.Path(), "a section with path %s is said to be in file %s", p, e.Res[0])
				}
				break
			}
			if s.Decide(flow.Eq(p, empty)) != 1 {
				if e.Res[0] != p || s.IsNil(up) != 1 {
					c.VP("filepath", e.Pos, s.Path(), "a section is said to be in file %s whatever its path is", e.Res[0])
				}
				break
			}
			if s.IsNil(up) == 1 {
				if e.Res[0] != empty && e.Res[0] != p {
					c.VP("filepath", e.Pos, s.Path(), "a section without file is said to be in file %s", e.Res[0])
				}
				break
			}
			if s.IsNil(up) != 0 || i > 4 {
				c.VP("filepath", e.Pos, s.Path(), "the file of an inline section is %s instead of that of its parent", e.Res[0])
				break
			}
			cur = up
		}
	}
	c.Need("file paths", 2)
}
