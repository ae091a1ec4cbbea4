package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C36", Title: "Every command-line option takes effect",
		Rule:  "Configuration-flow analysis of Command.Execute, the helpers of its package inlined and the loading, rendering, writing and serving calls cut. The options are the fields of the command by the long name in their struct tags. On every path, an operation controlled by an option must be given that option's value and lie on paths on which the option is known to be set, and every path which ends without error must include each operation asked for by the options it does not know to be unset: the engine (text exactly if a file extension is given, with it), its custom templates, the tolerance for broken references and the slow-call threshold before any document is loaded, the input loaded as root, the section by tag of the root or by path with the root as parent, the output directory made and written to or else standard output, the search index of the root, the debug level; serving hands the input, threshold, templates, output directory and port to the server. Profiles are served on the port and written to the file asked for, completely. Option groups get the documented prefix, options their short form.",
		Trust: []string{"go-flags fills the fields as their struct tags say", "the operations do with their arguments what C06, C14, C27 and C31 check"},
		Run:   runC36,
	})
}

// option is a command-line option: a field of the command.
type option struct {
	long string
	path []string
	typ  types.Type
	tag  reflect.StructTag
}

// commandType finds the struct with the command-line options and its options by
// their full name.
func commandType(c *C) (*types.Named, map[string]option) {
	pk := c.P.pkg(cmdPkg)
	if pk == nil {
		c.V("anchor:"+cmdPkg, token.NoPos, "the package of the command is gone")
		panic(abort{})
	}
	for _, n := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok || structOf(named) == nil {
			continue
		}
		opts := map[string]option{}
		var walk func(st *types.Struct, prefix string, path []string)
		walk = func(st *types.Struct, prefix string, path []string) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag := reflect.StructTag(st.Tag(i))
				p := append(append([]string{}, path...), f.Name())
				if l := tag.Get("long"); l != "" {
					opts[prefix+l] = option{prefix + l, p, f.Type(), tag}
				}
				if sub := structOf(f.Type()); sub != nil && tag.Get("group") != "" {
					pre := prefix
					if ns := tag.Get("namespace"); ns != "" {
						pre += ns + "-"
					}
					walk(sub, pre, p)
				}
			}
		}
		walk(structOf(named), "", nil)
		if _, ok := opts["in"]; ok && len(opts) > 3 {
			return named, opts
		}
	}
	c.V("anchor:command", token.NoPos, "no struct of package booklitcmd has the command-line options")
	panic(abort{})
}

// of is the initial value of an option.
func (o option) of(s *flow.State, cmd *flow.Term) *flow.Term {
	st := cmd.Typ
	addr := cmd
	for i, n := range o.path {
		ft := fieldTypeOf(st, n)
		if i == len(o.path)-1 {
			return s.LoadField(addr, n, ft)
		}
		addr = flow.FieldAddr(addr, n, ft)
		st = ft
	}
	return nil
}

// isSet decides whether an option is given: 1, 0 or -1.
func isSet(s *flow.State, v *flow.Term) int {
	switch u := v.Typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if d := s.Decide(flow.Eq(v, flow.StrConst(""))); d != -1 {
				return 1 - d
			}
			if d := s.Decide(flow.Eq(flow.Len(v), flow.Int(0))); d != -1 {
				return 1 - d
			}
			return -1
		case u.Info()&types.IsBoolean != 0:
			return s.Decide(v)
		}
		if d := s.Decide(flow.Eq(v, flow.Int(0))); d != -1 {
			return 1 - d
		}
		if s.Decide(flow.Lt(flow.Int(0), v)) == 0 {
			return 0
		}
		return -1
	}
	if d := s.Decide(flow.Eq(flow.Len(v), flow.Int(0))); d != -1 {
		return 1 - d
	}
	return -1
}

// globalHolds reports whether the initial value of a package variable contains
// the function.
func globalHolds(g *ssa.Global, fn *ssa.Function) bool {
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	found := false
	var walk func(v ssa.Value, depth int)
	walk = func(v ssa.Value, depth int) {
		if depth > 6 || found {
			return
		}
		switch v := v.(type) {
		case *ssa.Function:
			found = found || v == fn
		case *ssa.ChangeType:
			walk(v.X, depth+1)
		case *ssa.MakeInterface:
			walk(v.X, depth+1)
		case *ssa.Slice:
			walk(v.X, depth+1)
		case *ssa.Alloc, *ssa.IndexAddr:
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.IndexAddr:
					walk(r, depth+1)
				case *ssa.Store:
					if r.Addr == v {
						walk(r.Val, depth+1)
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
				walk(st.Val, 0)
			}
		}
	}
	return found
}

func runC36(c *C) {
	ch := newChain(c)
	cmdT, opts := commandType(c)
	exe := c.meth(cmdPkg, cmdT.Obj().Name(), "Execute")
	find := c.meth(mod, "Section", "FindTag")
	tagT := c.P.named(mod, "Tag")
	htmlT, textT := c.P.named(mod+"/render", "HTMLEngine"), c.P.named(mod+"/render", "TextEngine")
	srvT := c.P.named(cmdPkg, "Server")
	newPlugin := c.fnc(mod+"/baselit", "NewPlugin")
	procT := c.P.named(mod+"/load", "Processor")
	if tagT == nil || htmlT == nil || textT == nil || srvT == nil || procT == nil {
		c.V("anchor:types", token.NoPos, "the tag, engine, server or processor type is gone")
		return
	}
	threshold := ""
	for i := 0; i < structOf(procT).NumFields(); i++ {
		if f := structOf(procT).Field(i); f.Exported() && f.Type().String() == "time.Duration" {
			threshold = f.Name()
		}
	}
	if threshold == "" {
		c.V("anchor:threshold", token.NoPos, "the processor has no threshold")
		return
	}
	durT := fieldTypeOf(procT, threshold)
	allow := c.P.SSA.ImportedPackage(mod).Var("AllowBrokenReferences")
	if allow == nil {
		c.V("anchor:AllowBrokenReferences", token.NoPos, "the tolerance for broken references is gone")
		return
	}
	cmd := flow.Sym("param", "cmd", types.NewPointer(cmdT))
	val := map[string]*flow.Term{}
	need := func(n string) *flow.Term {
		if v := val[n]; v != nil {
			return v
		}
		c.V("option:"+n, token.NoPos, "there is no option --%s", n)
		panic(abort{})
	}
	boolT := types.Typ[types.Bool]
	strT := types.Typ[types.String]
	allowAddr := flow.Sym("gaddr", mod+".AllowBrokenReferences", types.NewPointer(boolT))
	allowGlob := flow.Sym("global", mod+".AllowBrokenReferences", boolT)
	var in, out, tag, path, index, port, plugins, debug, ext, htmlDir, textDir, broken, slow *flow.Term
	stdout := func(t *flow.Term) bool {
		return t.Has(func(u *flow.Term) bool { return (u.Op == "global" || u.Op == "gaddr") && u.Str == "os.Stdout" })
	}
	last := func(f *ssa.Function) types.Type {
		if f == nil || f.Signature.Results().Len() == 0 {
			return nil
		}
		return f.Signature.Results().At(f.Signature.Results().Len() - 1).Type()
	}
	fork := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo, kind string, ok func(*flow.State, *flow.Term)) []flow.Outcome {
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			e := o.Res
			if t, isT := ci.Result.(*types.Tuple); isT && t.Len() > 1 {
				e = flow.Sym("result", itoa(t.Len()-1), t.At(t.Len()-1).Type(), o.Res)
			}
			if o.St.IsNil(e) == 1 {
				if ok != nil {
					ok(o.St, o.Res)
				}
			} else {
				o.St.AddSticky(kind, e)
			}
		}
		return outs
	}
	settings := func(s *flow.State, pos token.Pos, proc *flow.Term) {
		if s.Count("profile:stopped") > 0 {
			c.VP("profile", pos, s.Path(), "the profile is complete before the work starts")
		}
		g := s.Load(allowAddr, boolT)
		b, isB := g.IsBool()
		switch {
		case g == broken:
		case g == allowGlob && isSet(s, broken) == 0:
		case isB && b && isSet(s, broken) == 1, isB && !b && isSet(s, broken) == 0:
		case s.Decide(flow.Eq(g, broken)) == 1:
		default:
			c.VP("broken", pos, s.Path(), "documents are loaded with the tolerance for broken references being %s, not the option's", g)
		}
		if v := get(s, proc, threshold, durT); v != slow && s.Decide(flow.Eq(v, slow)) != 1 {
			c.VP("slow", pos, s.Path(), "documents are loaded with slow-call threshold %s, not the option's", v)
		}
		if isSet(s, debug) != 0 && s.Count("debug") == 0 {
			c.VP("debug", pos, s.Path(), "the debug level is not set although it is asked for")
		}
	}
	engine := func(s *flow.State, pos token.Pos, eng *flow.Term) {
		eng = unwrap(eng)
		kind := ""
		for _, k := range []string{"html", "text"} {
			if s.Has("engine:"+k, eng) {
				kind = k
			}
		}
		want := map[int]string{1: "text", 0: "html"}[isSet(s, ext)]
		dir := map[string]*flow.Term{"html": htmlDir, "text": textDir}[kind]
		switch {
		case kind == "":
			c.VP("engine", pos, s.Path(), "the engine used is %s", eng)
		case kind != want:
			c.VP("engine", pos, s.Path(), "the %s engine is used although the options ask for another", kind)
		case isSet(s, dir) != 0 && !s.Has("templates", eng):
			c.VP("templates", pos, s.Path(), "the custom templates are not loaded although they are given")
		}
	}
	section := func(s *flow.State, pos token.Pos, sec *flow.Term) {
		switch {
		case isSet(s, tag) == 1:
			for _, it := range s.Items("tags") {
				el := flow.Elem(it.Terms[0], flow.Int(0), tagT)
				if sec == get(s, el, "Section", ch.secT) {
					if s.Decide(flow.Eq(flow.Len(it.Terms[0]), flow.Int(0))) != 0 {
						c.VP("none", pos, s.Path(), "the first tag found is used although there may be none")
					}
					return
				}
			}
		case isSet(s, tag) == 0 && isSet(s, path) == 1:
			if s.Has("sub", sec) {
				return
			}
		case isSet(s, tag) == 0 && isSet(s, path) == 0:
			if s.Has("root", sec) {
				return
			}
		}
		c.VP("section", pos, s.Path(), "the section built is %s, not the one the options select", sec)
	}
	given := func(s *flow.State, pos token.Pos, o *flow.Term, key, what string) {
		if isSet(s, o) != 1 {
			c.VP(key, pos, s.Path(), "%s although the option may not be given", what)
		}
	}
	prof := &profiling{c: c}
	r := &flow.Rule{}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		f := ci.Callee
		if outs, ok := prof.call(x, s, ci); ok {
			return outs, true
		}
		if ci.Go {
			return nil, false
		}
		pkg := ""
		if f != nil && f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		}
		inMod := f != nil && x.InModule(f)
		var ptr types.Type
		if f != nil && f.Signature.Results().Len() == 1 {
			if p, ok := f.Signature.Results().At(0).Type().(*types.Pointer); ok {
				ptr = p.Elem()
			}
		}
		switch {
		case ci.Name == "os.Exit":
			return nil, true
		case pkg == mod+"/render" && ptr != nil && (types.Identical(ptr, htmlT) || types.Identical(ptr, textT)):
			c.Obl("engines")
			res := x.OpaqueResult(s, ci)
			s.Assume(flow.Eq(res, flow.Nil()), false)
			if types.Identical(ptr, textT) {
				s.AddSticky("engine:text", res)
				if len(ci.Args) != 1 || ci.Args[0] != ext {
					c.VP("extension", ci.Pos, s.Path(), "the text engine does not get the file extension given")
				}
			} else {
				s.AddSticky("engine:html", res)
			}
			return one(s, res), true
		case strings.HasSuffix(ci.Name, ").LoadTemplates"):
			c.Obl("templates")
			eng := unwrap(ci.Args[0])
			dir := htmlDir
			if s.Has("engine:text", eng) {
				dir = textDir
			}
			if ci.Args[1] != dir {
				c.VP("templates", ci.Pos, s.Path(), "the templates of %s are loaded, not those given for the engine", ci.Args[1])
			}
			given(s, ci.Pos, dir, "templates", "custom templates are loaded")
			return fork(x, s, ci, "failed", func(s *flow.State, _ *flow.Term) { s.AddSticky("templates", eng) }), true
		case inMod && pkg == mod+"/load" && f.Signature.Recv() != nil && last(f) != nil && isErrType(last(f)) && f.Signature.Results().Len() == 2 && ch.isSec(f.Signature.Results().At(0).Type()):
			c.Obl("loadings")
			settings(s, ci.Pos, ci.Args[0])
			var parent, file, facts *flow.Term
			for i, a := range ci.Args[1:] {
				switch t := f.Signature.Params().At(i).Type(); {
				case ch.isSec(t):
					parent = a
				case t == strT:
					file = a
				case strings.HasSuffix(t.String(), "PluginFactory"):
					facts = a
				}
			}
			if facts != nil {
				ok := facts.Has(func(u *flow.Term) bool { return u.Op == "func" && u.Str == newPlugin.String() })
				if facts.Op == "global" || facts.Op == "deref" {
					for _, m := range f.Prog.AllPackages() {
						for _, mem := range m.Members {
							if g, isG := mem.(*ssa.Global); isG && m.Pkg.Path()+"."+g.Name() == facts.Str && globalHolds(g, newPlugin) {
								ok = true
							}
						}
					}
				}
				if !ok {
					c.VP("plugin", ci.Pos, s.Path(), "the document is loaded without the base plugin (%s)", facts)
				}
			}
			kind := ""
			switch {
			case file == in && (parent == nil || s.IsNil(parent) == 1):
				kind = "root"
			case file == path && parent != nil && s.Has("root", parent):
				kind = "sub"
				given(s, ci.Pos, path, "path", "the section path is loaded")
			default:
				c.VP("input", ci.Pos, s.Path(), "%s is loaded with parent %v: neither the input nor the section path within it", file, parent)
			}
			return fork(x, s, ci, "failed", func(s *flow.State, res *flow.Term) {
				t := flow.Sym("result", "0", ch.secT, res)
				s.AddSticky("loaded:"+kind, res)
				s.AddSticky(kind, t)
			}), true
		case f == find:
			c.Obl("searches")
			if !s.Has("root", ci.Args[0]) || ci.Args[1] != tag {
				c.VP("tag", ci.Pos, s.Path(), "the tag %s is searched in %s", ci.Args[1], ci.Args[0])
			}
			given(s, ci.Pos, tag, "tag", "a tag is searched")
			res := x.OpaqueResult(s, ci)
			s.AddSticky("tags", res)
			return one(s, res), true
		case strings.HasSuffix(ci.Name, ").RenderSection"):
			c.Obl("renderings")
			engine(s, ci.Pos, ci.Args[0])
			section(s, ci.Pos, ci.Args[2])
			if !stdout(ci.Args[1]) || isSet(s, out) != 0 {
				c.VP("stdout", ci.Pos, s.Path(), "the section is rendered to %s although an output directory may be given", ci.Args[1])
			}
			if s.Count("built") > 0 {
				c.VP("again", ci.Pos, s.Path(), "the section is built twice")
			}
			return fork(x, s, ci, "failed", func(s *flow.State, _ *flow.Term) { s.AddSticky("built") }), true
		case ci.Name == "os.MkdirAll":
			return fork(x, s, ci, "failed", func(s *flow.State, _ *flow.Term) { s.AddSticky("directory", ci.Args[0]) }), true
		case inMod && pkg == mod+"/render" && f.Name() == "WriteSection" || inMod && pkg == mod+"/render" && f.Name() == "WriteSearchIndex":
			c.Obl("writings")
			w := ci.Args[0]
			engT := fieldTypeOf(f.Signature.Recv().Type(), "Engine")
			if p, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
				engT = fieldTypeOf(p.Elem(), "Engine")
			}
			if d := get(s, w, "Destination", strT); d != out {
				c.VP("destination", ci.Pos, s.Path(), "the destination is %s instead of the output directory given", d)
			}
			given(s, ci.Pos, out, "destination", "an output directory is written to")
			if !s.Has("directory", out) {
				c.VP("directory", ci.Pos, s.Path(), "the output directory is written to without being made")
			}
			if f.Name() == "WriteSection" {
				engine(s, ci.Pos, get(s, w, "Engine", engT))
				section(s, ci.Pos, ci.Args[1])
				if s.Count("built") > 0 {
					c.VP("again", ci.Pos, s.Path(), "the section is built twice")
				}
				return fork(x, s, ci, "failed", func(s *flow.State, _ *flow.Term) { s.AddSticky("built") }), true
			}
			engine(s, ci.Pos, get(s, w, "Engine", engT))
			given(s, ci.Pos, index, "index", "the search index is written")
			if !s.Has("root", ci.Args[1]) {
				c.VP("index", ci.Pos, s.Path(), "the search index is made of %s instead of the whole document", ci.Args[1])
			}
			if n, ok := ci.Args[2].IsStr(); !ok || n != "search_index.json" {
				c.VP("index", ci.Pos, s.Path(), "the search index is written to %s", ci.Args[2])
			}
			return fork(x, s, ci, "failed", func(s *flow.State, _ *flow.Term) { s.AddSticky("indexed") }), true
		case strings.HasSuffix(ci.Name, "logrus.SetLevel") || strings.HasSuffix(ci.Name, "logrus.Logger).SetLevel"):
			if n, ok := ci.Args[len(ci.Args)-1].IsInt(); ok && n >= 5 {
				s.AddSticky("debug")
				given(s, ci.Pos, debug, "debug", "the debug level is set")
			}
			return one(s, flow.Nil()), true
		case pkg == "net/http" && (f.Name() == "Handle" || f.Name() == "HandleFunc" || f.Name() == "ListenAndServe"):
			listen := f.Name() == "ListenAndServe"
			for _, a := range ci.Args {
				a = unwrap(a)
				var t types.Type
				a.Walk(func(u *flow.Term) {
					if t == nil && u.Op == "alloc" && u.Typ != nil && types.Identical(u.Typ, srvT) {
						t, a = u.Typ, u
					}
				})
				if t == nil {
					continue
				}
				c.Obl("servers")
				s.AddSticky("handler")
				settings(s, ci.Pos, get(s, a, "Processor", types.NewPointer(procT)))
				if v := get(s, a, "In", strT); v != in {
					c.VP("serve:input", ci.Pos, s.Path(), "the server's input is %s", v)
				}
				if v := get(s, a, "Templates", strT); v != htmlDir {
					c.VP("serve:templates", ci.Pos, s.Path(), "the server's templates are %s", v)
				}
				if v := unwrap(get(s, a, "Engine", fieldTypeOf(srvT, "Engine"))); !s.Has("engine:html", v) {
					c.VP("serve:engine", ci.Pos, s.Path(), "the server's engine is %s", v)
				}
				fs := get(s, a, "FileServer", fieldTypeOf(srvT, "FileServer"))
				if !fs.Mentions(out) || !fs.Has(func(u *flow.Term) bool { return strings.Contains(flow.CallName(u), "FileServer") }) {
					c.VP("serve:files", ci.Pos, s.Path(), "the server's files are %s, not those of the output directory", fs)
				}
			}
			if !listen {
				for _, a := range ci.Args {
					if p, ok := a.IsStr(); ok && p != "/" && s.Count("handler") > 0 && s.Count("served") == 0 {
						c.VP("serve:pattern", ci.Pos, s.Path(), "the server handles only requests for %s", p)
					}
				}
				return one(s, flow.Nil()), true
			}
			c.Obl("servings")
			given(s, ci.Pos, port, "serve", "the document is served")
			addr := ci.Args[0]
			if f.Signature.Recv() != nil {
				addr = get(s, addr, "Addr", strT)
				if h := get(s, ci.Args[0], "Handler", nil); h.Has(func(u *flow.Term) bool { return u.Op == "alloc" && u.Typ != nil && types.Identical(u.Typ, srvT) }) {
					s.AddSticky("handler")
				}
			}
			if !addr.Mentions(port) {
				c.VP("serve:port", ci.Pos, s.Path(), "the server listens on %s instead of the port given", addr)
			}
			if s.Count("handler") == 0 {
				c.VP("serve:handler", ci.Pos, s.Path(), "the server listens without handling requests for the document")
			}
			s.AddSticky("served")
			return fork(x, s, ci, "failed", nil), true
		case f != nil && !inMod && last(f) != nil && isErrType(last(f)) && pkg != "fmt" && pkg != "errors":
			return fork(x, s, ci, "mayfail", nil), true
		case f != nil && !inMod && strings.Contains(pkg, "logrus"):
			if t, ok := ci.Result.(*types.Tuple); ok && t.Len() == 0 {
				return one(s, flow.Nil()), true
			}
		}
		return nil, false
	}
	_, exits := c.run(r, exe, []*flow.Term{cmd, flow.Sym("param", "args", exe.Params[1].Type())}, func(s *flow.State) {
		for n, o := range opts {
			val[n] = o.of(s, cmd)
		}
		in, out, tag, path, index, port = need("in"), need("out"), need("section-tag"), need("section-path"), need("save-search-index"), need("serve")
		plugins, debug, ext, htmlDir, textDir = need("plugin"), need("debug"), need("text-file-extension"), need("html-templates"), need("text-templates")
		broken, slow = need("allow-broken-references"), need("slow-invoke-threshold")
		prof.port, prof.path = need("http-profile"), need("cpu-profile")
		s.Assume(flow.Eq(flow.Len(plugins), flow.Int(0)), true)
	})
	for _, e := range exits {
		if len(e.Res) == 0 {
			continue
		}
		c.Obl("ways out")
		s := e.St
		res := e.Res[len(e.Res)-1]
		failed := s.Items("failed")
		switch {
		case len(failed) > 0:
			told := s.IsNil(res) == 0
			if told {
				told = false
				for _, it := range failed {
					told = told || res.Mentions(it.Terms[0])
				}
			}
			if !told {
				c.VP("swallowed", e.Pos, s.Path(), "a failure is not reported: the result is %s", res)
			}
		case s.Count("mayfail") > 0 && s.IsNil(res) != 1:
		case s.IsNil(res) != 1:
			none := false
			for _, it := range s.Items("tags") {
				none = none || s.Decide(flow.Eq(flow.Len(it.Terms[0]), flow.Int(0))) == 1
			}
			if none && !res.Mentions(tag) {
				c.VP("unknown", e.Pos, s.Path(), "the error about the tag asked for does not name it: %s", res)
			}
			if !none {
				c.VP("fails", e.Pos, s.Path(), "the command fails with %s although nothing failed", res)
			}
		case isSet(s, port) != 0:
			if s.Count("served") == 0 {
				c.VP("unserved", e.Pos, s.Path(), "nothing is served although a port may be given")
			}
			prof.exit(e)
		default:
			if s.Count("built") == 0 {
				c.VP("unbuilt", e.Pos, s.Path(), "the command succeeds without rendering or writing the section")
			}
			if isSet(s, index) != 0 && isSet(s, out) != 0 && s.Count("indexed") == 0 {
				c.VP("unindexed", e.Pos, s.Path(), "no search index is written although it is asked for")
			}
			prof.exit(e)
		}
	}
	c.Need("ways out", 4)
	c.Need("engines", 2)
	c.Need("templates", 2)
	c.Need("loadings", 2)
	c.Need("searches", 1)
	c.Need("renderings", 1)
	c.Need("writings", 2)
	c.Need("servers", 1)
	c.Need("servings", 1)
	c.Need("profiles", 3)
	// the short forms, and what cannot be left out
	for long, short := range map[string]string{"in": "i", "out": "o", "serve": "s", "plugin": "p", "debug": "d", "version": "v"} {
		if o, ok := opts[long]; !ok || o.tag.Get("short") != short {
			c.V("short:"+long, cmdT.Obj().Pos(), "-%s is no longer short for --%s", short, long)
		}
		c.Obl("short forms")
	}
	for n, o := range opts {
		if given := o.tag.Get("required") != ""; given != (n == "in") {
			c.V("required:"+n, cmdT.Obj().Pos(), "whether --%s may be left out has changed", n)
		}
	}
	c.prefixes()
	c.threshold()
}

// prefixes checks that the names of grouped options are joined by a dash.
func (c *C) prefixes() {
	r := &flow.Rule{}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Name == "os.Exit" {
			return nil, true
		}
		if strings.HasSuffix(ci.Name, "flags.Parser).Parse") || strings.HasSuffix(ci.Name, "flags.Parser).ParseArgs") {
			c.Obl("parsers")
			if d := get(s, ci.Args[0], "NamespaceDelimiter", types.Typ[types.String]); d != flow.StrConst("-") {
				c.VP("prefix", ci.Pos, s.Path(), "names of grouped options are joined by %s instead of a dash", d)
			}
			return nil, true
		}
		return nil, false
	}
	c.run(r, c.fnc(cmdPkg, "Main"), nil, nil)
	c.Need("parsers", 1)
}
