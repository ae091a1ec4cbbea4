package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C21", Title: "Plugins are scoped to their section",
		Rule:  "Section.UsePlugin is summarised: it appends the factory and what the factory makes of this very section. The use-plugin function uses exactly the factory registered under the name, once, and fails without using any if there is none. Both makers of sections use every factory given to them, in order, on the new section before its content is evaluated. The section function passes on all factories of its section, the include function exactly the basic plugin. Factories of the module bind the section they are given. Nobody else sets a section's plugins. The packages of the plugins which come with Booklit register them under their names when initialised.",
		Trust: []string{"factories of other modules bind the section they are given"},
		Run:   runC21,
	})
}

func runC21(c *C) {
	b := newBasePlugin(c)
	ch := b.ch
	facsT, plugsT := fieldTypeOf(b.secN, "PluginFactories"), fieldTypeOf(b.secN, "Plugins")
	use := c.meth(mod, "Section", "UsePlugin")
	// using a plugin
	{
		con := flow.Sym("param", "section", use.Params[0].Type())
		pf := flow.Sym("param", "factory", use.Params[1].Type())
		r := &flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Func == pf {
				s.AddSticky("applied", ci.Args...)
				return one(s, flow.Sym("pure", "applied", types.NewInterfaceType(nil, nil), ci.Args...)), true
			}
			return nil, false
		}}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base != con || field != "Plugins" && field != "PluginFactories" {
				c.VP("use:store", instr.Pos(), s.Path(), "using a plugin sets %s of %s", field, base)
			}
		})
		_, exits := c.run(r, use, []*flow.Term{con, pf}, nil)
		for _, e := range exits {
			c.Obl("uses of a plugin")
			bad := func(f string, a ...any) { c.VP("use", e.Pos, e.St.Path(), f, a...) }
			if got := appended(e.St.LoadField(con, "PluginFactories", facsT), flow.Field(con, "PluginFactories", facsT)); got != pf {
				bad("using a plugin leaves the factories %s", e.St.LoadField(con, "PluginFactories", facsT))
			}
			got := appended(e.St.LoadField(con, "Plugins", plugsT), flow.Field(con, "Plugins", plugsT))
			if got == nil || unwrap(got).Op != "pure" || unwrap(got).Str != "applied" || unwrap(got).Args[0] != con {
				bad("using a plugin leaves the plugins %s", e.St.LoadField(con, "Plugins", plugsT))
			}
		}
		if len(exits) == 0 {
			c.V("use", use.Pos(), "UsePlugin never returns")
		}
	}
	// the registry
	lookup := c.fnc(mod, "LookupPlugin")
	var registry *flow.Term
	{
		reg := c.fnc(mod, "RegisterPlugin")
		name := flow.Sym("param", "name", reg.Params[0].Type())
		fac := flow.Sym("param", "factory", reg.Params[1].Type())
		r := &flow.Rule{MapUpdate: func(x *flow.Exec, s *flow.State, m, k, v *flow.Term, instr ssa.Instruction) {
			s.AddSticky("set", m, k, v)
		}}
		_, exits := c.run(r, reg, []*flow.Term{name, fac}, nil)
		for _, e := range exits {
			c.Obl("registrations")
			sets := e.St.Items("set")
			ok := false
			for _, it := range sets {
				if it.Terms[1] == name && it.Terms[2] == fac && it.Terms[0].Op == "global" {
					registry = it.Terms[0]
					ok = true
				}
			}
			if !ok {
				c.VP("register", e.Pos, e.St.Path(), "registering a plugin can have no effect")
			}
		}
		name = flow.Sym("param", "name", lookup.Params[0].Type())
		_, exits = c.run(nil, lookup, []*flow.Term{name}, nil)
		for _, e := range exits {
			c.Obl("lookups")
			if registry == nil {
				break
			}
			want := flow.Sym("lookup", "", lookup.Signature.Results().At(0).Type(), registry, name)
			if e.Res[0] == want && e.Res[1] == foundTerm(want) {
				continue
			}
			if v, ok := e.Res[1].IsBool(); ok && (v && e.Res[0] == want && e.St.Decide(foundTerm(want)) == 1 || !v && e.St.Decide(foundTerm(want)) == 0) {
				continue
			}
			c.VP("lookup", e.Pos, e.St.Path(), "looking up a plugin yields %s, %s", e.Res[0], e.Res[1])
		}
	}
	// use-plugin
	{
		fn, args, sec := b.method("UsePlugin")
		boolT := types.Typ[types.Bool]
		found := flow.Sym("pure", "registered", boolT, args[1])
		fac := flow.Sym("pure", "factory", facsT.Underlying().(*types.Slice).Elem(), args[1])
		r := &flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch ci.Callee {
			case lookup:
				if ci.Args[0] != args[1] {
					c.VP("useplugin:name", ci.Pos, s.Path(), "use-plugin looks up %s", ci.Args[0])
					return nil, false
				}
				return one(s, flow.Sym("tuple", "", nil, fac, found)), true
			case use:
				s.AddSticky("used", ci.Args...)
				if len(s.Items("used")) > 1 {
					c.VP("useplugin", ci.Pos, s.Path(), "use-plugin uses more than one plugin")
				}
				return one(s, flow.Nil()), true
			}
			return nil, false
		}}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			c.VP("useplugin:store", instr.Pos(), s.Path(), "use-plugin sets %s of %s", field, base)
		})
		_, exits := c.run(r, fn, args, nil)
		good := 0
		for _, e := range exits {
			c.Obl("outcomes of use-plugin")
			bad := func(f string, a ...any) { c.VP("useplugin", e.Pos, e.St.Path(), f, a...) }
			used := e.St.Items("used")
			if errPath(e.St, e.Res) {
				if len(used) > 0 {
					bad("use-plugin fails after using a plugin")
				}
				if e.St.Decide(found) != 0 {
					bad("use-plugin can fail for a registered plugin")
				}
				continue
			}
			good++
			if e.St.Decide(found) != 1 {
				bad("use-plugin can succeed for an unknown plugin")
			}
			if len(used) != 1 || used[0].Terms[0] != sec || used[0].Terms[1] != fac {
				bad("use-plugin does not use the plugin of the given name in its section")
			}
		}
		if good == 0 {
			c.V("useplugin", fn.Pos(), "use-plugin never succeeds")
		}
	}
	// new sections
	m := newEvalModel(c)
	for _, mk := range newSectionMakers(c) {
		mk := mk
		facs := mk.args[len(mk.args)-1]
		good := false
		elemT := facsT.Underlying().(*types.Slice).Elem()
		r := &flow.Rule{Keep: loopSyms, Store: b.onlyNew(mk.what, "Plugins", "PluginFactories")}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == use {
				s.Add("used", ci.Args...)
				if a := ci.Args[1]; a.Op != "elem" || a.Args[0] != facs {
					c.VP("new:use:"+mk.what, ci.Pos, s.Path(), "%s uses plugin %s", mk.what, a)
				}
				return one(s, flow.Nil()), true
			}
			if _, v := m.visit(ci); v != nil {
				con := unwrap(s.LoadField(unwrap(v), m.sec, ch.secT))
				for _, f := range []string{"Plugins", "PluginFactories"} {
					if got := s.LoadField(con, f, plugsT); !emptyList(got) && got.Op != "zero" {
						c.VP("new:"+mk.what, ci.Pos, s.Path(), "%s starts a section with %s %s", mk.what, f, got)
					}
				}
				ok := s.Decide(flow.Eq(flow.Len(facs), flow.Int(0))) == 1
				for lk, sum := range x.LoopSums {
					over, el, _ := sumElem(x, sum)
					if over != facs || !s.Has("through:"+lk) || s.Has("left:"+lk) || el.Typ == nil || !types.Identical(el.Typ, elemT) {
						continue
					}
					all := len(sum.Iters) > 0
					for _, it := range sum.On(s) {
						n := 0
						for _, u := range it.St.Items("used") {
							if u.Terms[0] == con && u.Terms[1] == el {
								n++
							}
						}
						all = all && n == 1
					}
					ok = ok || all
				}
				if ok {
					good = true
					c.Obl("new sections")
				} else {
					c.VP("new:"+mk.what, ci.Pos, s.Path(), "%s evaluates a section which does not use every plugin given to it", mk.what)
				}
			}
			return m.call(x, s, ci)
		}
		c.run(r, mk.fn, mk.args, nil)
		if !good {
			c.V("new:"+mk.what, mk.fn.Pos(), "%s is not shown to use the plugins given to it", mk.what)
		}
	}
	// what children are given
	basic := c.fnc(basePkg, "NewPlugin")
	for _, f := range []struct{ name, maker string }{{"Section", "EvaluateNode"}, {"IncludeSection", "EvaluateFile"}} {
		fn, args, sec := b.method(f.name)
		r := &flow.Rule{Keep: loopSyms, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if t, ok := filePathCall(c, ci); ok {
				return one(s, t), true
			}
			if strings.HasSuffix(ci.Name, "SectionProcessor).EvaluateNode") || strings.HasSuffix(ci.Name, "SectionProcessor).EvaluateFile") || strings.HasSuffix(ci.Name, "load.Processor).EvaluateNode") || strings.HasSuffix(ci.Name, "load.Processor).EvaluateFile") {
				c.Obl("children")
				facs := ci.Args[len(ci.Args)-1]
				if f.name == "Section" {
					want := flow.Field(sec, "PluginFactories", facsT)
					if why := listOf(x, s, facs, want, nil); why != "" {
						c.VP("inherit", ci.Pos, s.Path(), "the plugins an inline section inherits: the list %s", why)
					}
				} else if ps, ok := pieces(x, facs); !ok || len(ps) != 1 || ps[0].One == nil || !isFunc(ps[0].One, basic) {
					c.VP("include", ci.Pos, s.Path(), "an included section starts with the plugins %s instead of just the basic plugin", facs)
				}
				return forkErr(x, s, ci), true
			}
			return nil, false
		}}
		c.run(r, fn, args, nil)
	}
	// loading passes on its plugins
	for _, n := range []string{"LoadFile", "LoadFileIn"} {
		fn := c.meth(mod+"/load", "Processor", n)
		ef := c.meth(mod+"/load", "Processor", "EvaluateFile")
		args := []*flow.Term{}
		for i, p := range fn.Params {
			args = append(args, flow.Sym("param", n+itoa(i), p.Type()))
		}
		c.run(&flow.Rule{Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == ef {
				c.Obl("loads")
				if ci.Args[3] != args[len(args)-1] {
					c.VP("load:"+n, ci.Pos, s.Path(), "%s evaluates its file with plugins %s", n, ci.Args[3])
				}
				return forkErr(x, s, ci), true
			}
			return nil, false
		}}, fn, args, nil)
	}
	// factories bind their section
	facT := c.P.named(mod, "PluginFactory")
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			if f.Parent() != nil || f.Signature.Recv() != nil || facT == nil || !types.Identical(f.Signature, facT.Underlying()) {
				continue
			}
			sec := flow.Sym("param", "section", ch.secT)
			_, exits := c.run(nil, f, []*flow.Term{sec}, nil)
			for _, e := range exits {
				c.Obl("factories")
				v := unwrap(e.Res[0])
				if e.Res[0].IsNil() || v.Typ == nil || structOf(v.Typ) == nil {
					c.VP("factory:"+f.String(), e.Pos, e.St.Path(), "%s yields %s", short(f.String()), e.Res[0])
					continue
				}
				st := structOf(v.Typ)
				for i := 0; i < st.NumFields(); i++ {
					if fl := st.Field(i); ch.isSec(fl.Type()) {
						if got := get(e.St, v, fl.Name(), fl.Type()); got != sec {
							c.VP("factory:"+f.String(), e.Pos, e.St.Path(), "%s binds %s instead of the given section", short(f.String()), got)
						}
					}
				}
			}
		}
	}
	// the plugins which come with Booklit are registered when imported
	regFn := c.fnc(mod, "RegisterPlugin")
	for _, d := range []struct{ name, pkg, of string }{{"baselit", "/baselit", "/baselit"}, {"chroma", "/chroma/plugin", "/chroma"}} {
		pk := c.P.SSA.ImportedPackage(mod + d.pkg)
		if pk == nil {
			c.V("registered:"+d.name, token.NoPos, "the plugin %s is gone", d.name)
			continue
		}
		fac := c.fnc(mod+d.of, "NewPlugin")
		n := 0
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			f := ci.Callee
			switch {
			case f == regFn:
				n++
				if name, ok := ci.Args[0].IsStr(); ok && name == d.name && !isFunc(ci.Args[1], fac) {
					c.VP("registered:"+d.name, ci.Pos, s.Path(), "%s is registered as the plugin %s", ci.Args[1], d.name)
				} else if ok && name == d.name {
					s.AddSticky("registered")
				}
				return one(s, flow.Nil()), true
			case f != nil && f.Pkg != pk && f.Parent() == nil:
				return one(s, x.OpaqueResult(s, ci)), true
			}
			return nil, false
		}
		done := false
		for i := 1; ; i++ {
			f := pk.Func("init#" + itoa(i))
			if f == nil {
				break
			}
			_, exits := c.run(r, f, nil, nil)
			all := len(exits) > 0
			for _, e := range exits {
				all = all && e.St.Has("registered")
			}
			done = done || all
		}
		if done {
			c.Obl("plugins registered")
		} else {
			c.V("registered:"+d.name, fac.Pos(), "importing %s does not register the plugin %s", mod+d.pkg, d.name)
		}
	}
	// nobody else
	makers := []*ssa.Function{use}
	for _, mk := range newSectionMakers(c) {
		makers = append(makers, mk.fn)
	}
	ok := c.P.reach(makers...)
	for _, f := range []string{"Plugins", "PluginFactories"} {
		for _, st := range c.fieldStores(b.secN, f) {
			c.Obl("stores of plugins")
			if !ok[st.Fn] && c.P.live()[st.Fn] && !st.Fresh {
				c.V("store:"+f+":"+st.Fn.Name(), st.Instr.Pos(), "%s sets %s of a section", short(st.Fn.String()), f)
			}
		}
	}
	c.Need("uses of a plugin", 1)
	c.Need("registrations", 1)
	c.Need("lookups", 1)
	c.Need("outcomes of use-plugin", 2)
	c.Need("new sections", 2)
	c.Need("children", 2)
	c.Need("loads", 1)
	c.Need("factories", 1)
	c.Need("plugins registered", 2)
}

func isFunc(t *flow.Term, f *ssa.Function) bool {
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t.Op == "func" && t.Str == f.String()
}
