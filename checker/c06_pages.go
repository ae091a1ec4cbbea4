package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C06", Title: "A link leads to the page and anchor its target is rendered at",
		Rule:  "Functions which follow the parents to the section owning a page are verified by induction (recursion or loop). Every engine's URL, and the URL functions given to templates, are summarised symbolically; for each combination of anchored or not and rendered on its own page or not, every consistent exit must yield <primary tag of the page owner>.<the engine's extension> and the expected fragment. The writer's file name must be the same expression of the section it renders. In the built-in templates the element with the section's primary tag or the target's name as id is output unconditionally, and references and tables of contents link to the URL of their tag.",
		Trust: []string{"primary tag names are the names URLs and files are made from; they are escaped by html/template only"},
		Run:   runC06,
	})
	register(checkDef{
		ID: "C07", Title: "Every section appears on exactly one page",
		Rule:  "WriteSection is cut at its recursive functions; each is summarised: which pages it writes for its section under which facts, and which functions it calls for every child. On every successful path a page is written exactly if the section has no parent or its parent splits, every child is handed on exactly once, and the section rendered is the one named by the file. The built-in section templates render every child in place exactly if the section does not split.",
		Trust: []string{"files with equal names are out of scope (C39)"},
		Run:   runC07,
	})
}

const renderPkg = mod + "/render"

// engines lists the types implementing render.Engine, as used in interfaces.
func (c *C) engines() []types.Type {
	ei := c.P.iface(renderPkg, "Engine")
	if ei == nil {
		c.V("anchor:Engine", 0, "render.Engine no longer exists")
		panic(abort{})
	}
	out := []types.Type{}
	sc := c.P.Pkgs[renderPkg].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(t, ei) {
			out = append(out, t)
		} else if types.Implements(types.NewPointer(t), ei) {
			out = append(out, types.NewPointer(t))
		}
	}
	return out
}

func (c *C) engineMethod(t types.Type, name string) *ssa.Function {
	n := t
	if p, ok := t.(*types.Pointer); ok {
		n = p.Elem()
	}
	f := c.P.visitorMethod(n, name)
	if f == nil {
		// promoted from an embedded type
		if sel := types.NewMethodSet(t).Lookup(nil, name); sel != nil {
			f = c.P.SSA.MethodValue(sel)
		}
	}
	return c.Anchor(f, typeName(t)+"."+name)
}

// funcEntry is a function made available to templates.
type funcEntry struct {
	Name string
	Fn   *ssa.Function
	In   *ssa.Function // where the map is built
	Map  ssa.Value
	Pos  token.Pos
}

// templateFuncs lists the functions put into template.FuncMaps of a package.
func (c *C) templateFuncs(pkg string) []funcEntry {
	out := []funcEntry{}
	for _, f := range c.P.allFuncs(pkg) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				v := mu.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				var fn *ssa.Function
				switch v := v.(type) {
				case *ssa.Function:
					fn = v
				case *ssa.MakeClosure:
					fn, _ = v.Fn.(*ssa.Function)
				}
				if fn != nil {
					out = append(out, funcEntry{constant.StringVal(k.Value), fn, f, mu.Map, mu.Pos()})
				}
			}
		}
	}
	return out
}

// allFuncs lists a package's functions including package initialisation.
func (p *Prog) allFuncs(pkg string) []*ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	out := p.funcsIn(pk)
	if sp := p.SSA.Package(pk.Types); sp != nil {
		if i := sp.Func("init"); i != nil {
			seen := map[*ssa.Function]bool{}
			for _, f := range out {
				seen[f] = true
			}
			var add func(f *ssa.Function)
			add = func(f *ssa.Function) {
				if !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
				for _, a := range f.AnonFuncs {
					add(a)
				}
			}
			add(i)
		}
	}
	return out
}

// extension is the engine's FileExtension as a term.
func (c *C) extension(t types.Type, recv *flow.Term) *flow.Term {
	f := c.engineMethod(t, "FileExtension")
	_, exits := c.run(nil, f, []*flow.Term{recv}, nil)
	if len(exits) != 1 {
		c.V("extension:"+typeName(t), f.Pos(), "%s has no single file extension", typeName(t))
		panic(abort{})
	}
	return exits[0].Res[0]
}

func runC06(c *C) {
	ch := newChain(c)
	secN := c.P.named(mod, "Section")
	tagT := c.P.named(mod, "Tag")
	str := types.Typ[types.String]
	name := func(sec *flow.Term) *flow.Term {
		return flow.Field(flow.Field(sec, "PrimaryTag", fieldTypeOf(secN, "PrimaryTag")), "Name", str)
	}
	call := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Callee != nil && len(ci.Args) == 1 && ch.owner(ci.Callee) {
			return one(s, ch.ownerTerm(ci.Args[0])), true
		}
		return nil, false
	}
	urlOf := func(what string, fn *ssa.Function, args []*flow.Term, tag *flow.Term, ext *flow.Term, engine types.Type) {
		sec := flow.Field(tag, "Section", ch.secT)
		anchor := flow.Field(tag, "Anchor", str)
		own := ch.ownerTerm(sec)
		x, exits := c.run(&flow.Rule{Call: call, Keep: loopSyms, Reenter: 1}, fn, args, nil)
		if len(exits) == 0 {
			c.V("url:"+what, fn.Pos(), "%s yields no URL", what)
		}
		seen := map[string]bool{}
		for _, e := range exits {
			st := ch.normState(x, e.St)
			if st == nil {
				continue
			}
			res := ch.norm(x, e.St, e.Res[0])
			ex := ext
			if ex == nil {
				// closures over an engine: its own extension
				res.Walk(func(u *flow.Term) {
					if u.Typ == nil || ex != nil {
						return
					}
					if types.Identical(u.Typ, types.NewPointer(engine)) {
						u = flow.Sym("deref", "", engine, u)
					}
					if types.Identical(u.Typ, engine) {
						nv := len(c.viol)
						ex = c.extension(engine, u)
						c.viol = c.viol[:nv]
					}
				})
				if ex == nil {
					c.VP("url:"+what, e.Pos, e.St.Path(), "%s yields %s, which does not use the engine's file extension", what, res)
					continue
				}
			}
			file := func(s *flow.Term) *flow.Term { return flow.StrCat(name(s), flow.StrConst("."), ex) }
			hash := flow.StrConst("#")
			eq := flow.Eq(own, sec)
			noAnchor := flow.Eq(anchor, flow.StrConst(""))
			type combo struct {
				what  string
				facts []*flow.Term
				page  [][]*flow.Term // any of
				want  []*flow.Term
			}
			notOwn := [][]*flow.Term{ch.notOwnPage(sec)}
			combos := []combo{
				{"an anchored tag of a section with its own page", []*flow.Term{flow.Not(noAnchor), eq}, ch.ownPage(sec), []*flow.Term{flow.StrCat(file(sec), hash, anchor), flow.StrCat(file(own), hash, anchor)}},
				{"an anchored tag of a section on another section's page", []*flow.Term{flow.Not(noAnchor), flow.Not(eq)}, notOwn, []*flow.Term{flow.StrCat(file(own), hash, anchor)}},
				{"a tag of a section with its own page", []*flow.Term{noAnchor, eq}, ch.ownPage(sec), []*flow.Term{file(sec), file(own)}},
				{"a tag of a section on another section's page", []*flow.Term{noAnchor, flow.Not(eq)}, notOwn, []*flow.Term{flow.StrCat(file(own), hash, name(sec))}},
			}
			for _, cb := range combos {
				var s *flow.State
				for _, pg := range cb.page {
					if n := consistent(st, append(append([]*flow.Term{}, cb.facts...), pg...)...); n != nil {
						s = n
					}
				}
				if s == nil {
					continue
				}
				seen[cb.what] = true
				ok := false
				for _, w := range cb.want {
					ok = ok || res == w
				}
				// a fragment known to be empty adds nothing
				if !ok && s.Decide(flow.Eq(name(sec), flow.StrConst(""))) == 1 && res == file(own) {
					ok = true
				}
				c.Obl("URL outcomes")
				if !ok {
					c.VP("url:"+what+":"+cb.what, e.Pos, e.St.Path(), "%s for %s yields %s instead of %s", what, cb.what, res, cb.want[0])
				}
			}
		}
		c.Sample("%s: %d exits, %d combinations", what, len(exits), len(seen))
		if len(exits) > 0 && len(seen) < 4 {
			c.V("url:"+what, fn.Pos(), "%s has an outcome for only %d of the 4 kinds of tags", what, len(seen))
		}
	}
	htmlExt := flow.StrConst("html")
	for _, t := range c.engines() {
		recv := flow.Sym("param", "engine", t)
		tag := flow.Sym("param", "tag", tagT)
		ext := c.extension(t, recv)
		urlOf(typeName(t)+".URL", c.engineMethod(t, "URL"), []*flow.Term{recv, tag}, tag, ext, t)
		if typeName(t) == "HTMLEngine" {
			htmlExt = ext
		}
		c.Obl("engines")
	}
	// functions for templates
	for _, fe := range c.templateFuncs(renderPkg) {
		sig := fe.Fn.Signature
		if (fe.Name != "url" && fe.Name != "htmlURL") || sig.Params().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), tagT) {
			continue // stubs which are replaced before rendering
		}
		tag := flow.Sym("param", "tag", tagT)
		ext := htmlExt
		args := []*flow.Term{tag}
		var eng types.Type
		for _, fv := range fe.Fn.FreeVars {
			for _, t := range c.engines() {
				if types.Identical(fv.Type(), t) || types.Identical(fv.Type(), types.NewPointer(t)) {
					eng, ext = t, nil
				}
			}
		}
		if fe.Name == "htmlURL" {
			ext, eng = htmlExt, nil
		} else if eng == nil {
			// built by an engine without using it
			for o := fe.In; o != nil && eng == nil; o = o.Parent() {
				if r := o.Signature.Recv(); r != nil {
					for _, t := range c.engines() {
						if types.Identical(r.Type(), t) || types.Identical(r.Type(), types.NewPointer(t)) {
							e := c.extension(t, flow.Sym("param", "engine", t))
							eng = t
							if _, k := e.IsStr(); k {
								ext = e
							} else {
								ext = nil
							}
						}
					}
				}
			}
		}
		if fe.Fn.Signature.Recv() != nil || len(fe.Fn.Params) != 1 {
			continue
		}
		c.Obl("URL functions of templates")
		urlOf("template function "+fe.Name, fe.Fn, args, tag, ext, eng)
	}
	// the writer's file
	pw := newPageWriter(c, ch)
	pw.run(func(e exitRec, path, sec *flow.Term, pos token.Pos) {
		c.Obl("files written")
		nm := pw.fileName(path)
		want := flow.StrCat(name(sec), flow.StrConst("."), pw.ext)
		if nm == nil {
			c.VP("file", pos, e.St.Path(), "a page is written to %s, which is not a file in the destination", path)
		} else if nm != want {
			c.VP("file", pos, e.St.Path(), "the page of %s is written to %s instead of %s", sec, nm, want)
		}
	}, nil)
	// templates
	ts := c.templates(renderPkg + "/html")
	anchors := []struct{ tmpl, before, expr, what string }{
		{"section.tmpl", `id="`, "$.PrimaryTag.Name", "the section's primary tag as an id"},
		{"target.tmpl", `id="`, "$.TagName", "the target's name as an id"},
		{"reference.tmpl", `href="`, "url($.Tag)", "a link to the reference's tag"},
		{"toc.tmpl", `href="`, "url($.Children[].PrimaryTag)", "a link to each child's primary tag"},
	}
	for _, a := range anchors {
		w := c.events(renderPkg+"/html", a.tmpl, ts)
		found, other := 0, ""
		for _, e := range w.events {
			if !strings.HasSuffix(e.Before, a.before) || !strings.HasPrefix(e.After, `"`) {
				continue
			}
			if e.Expr == a.expr && strings.Contains(a.before, "id") && len(e.Conds) > 0 {
				other = "only if " + strings.Join(e.Conds, " and ")
			} else if e.Expr == a.expr {
				found++
			} else {
				other = e.Expr
			}
		}
		c.Obl("ids and links of built-in templates")
		c.Sample("%s: %s %s", a.tmpl, a.before, a.expr)
		if found == 0 {
			c.V("template:"+a.tmpl, token.NoPos, "built-in template render/html/%s does not output %s (%s)", a.tmpl, a.what, other)
		}
		if strings.Contains(a.before, "id") && found > 1 {
			c.V("template:"+a.tmpl, token.NoPos, "built-in template render/html/%s outputs %s %d times", a.tmpl, a.what, found)
		}
	}
	c.Need("engines", 2)
	c.Need("URL outcomes", 8)
	c.Need("files written", 1)
	c.Need("URL functions of templates", 2)
}

// pageWriter follows Writer.WriteSection.
type pageWriter struct {
	c      *C
	ch     *chain
	writer *flow.Term
	ext    *flow.Term
	fn     *ssa.Function
	rec    map[*ssa.Function]bool
}

func newPageWriter(c *C, ch *chain) *pageWriter {
	p := &pageWriter{c: c, ch: ch, fn: c.meth(renderPkg, "Writer", "WriteSection"), rec: c.P.recursive()}
	p.writer = flow.Sym("param", "writer", p.fn.Params[0].Type())
	p.ext = flow.Sym("pure", "invoke:("+renderPkg+".Engine).FileExtension", types.Typ[types.String], flow.Field(p.writer, "Engine", nil))
	return p
}

// fileName is the name of a path directly in the destination.
func (p *pageWriter) fileName(path *flow.Term) *flow.Term {
	dest := flow.Field(p.writer, "Destination", types.Typ[types.String])
	n := flow.CallName(path)
	if (n == "path/filepath.Join" || n == "path.Join") && len(path.Args) == 1 && path.Args[0].Op == "cat" && len(path.Args[0].Args) == 2 {
		a, b := path.Args[0].Args[0], path.Args[0].Args[1]
		if a.Op == "one" && b.Op == "one" && a.Args[0] == dest {
			return b.Args[0]
		}
		return nil
	}
	if path.Op == "strcat" && len(path.Args) > 2 && path.Args[0] == dest {
		if s, ok := path.Args[1].IsStr(); ok && s == "/" {
			return flow.StrCat(path.Args[2:]...)
		}
	}
	return nil
}

// pwFn is one function of the recursion.
type pwFn struct {
	key  string
	fn   *ssa.Function
	args []*flow.Term
	subj *flow.Term
	done bool
}

// run analyses WriteSection and the recursive functions it uses. file is told
// every page written on a successful path, sum the summary of every exit.
func (p *pageWriter) run(file func(e exitRec, path, sec *flow.Term, pos token.Pos), sum func(f *pwFn, x *flow.Exec, e exitRec)) {
	recv := p.writer
	secT := p.ch.secT
	keys := map[string]*pwFn{}
	todo := []*pwFn{}
	add := func(f *ssa.Function, args []*flow.Term) (string, *flow.Term) {
		k := &pwFn{key: short(f.String()), fn: f}
		var actual *flow.Term
		for i, a := range args {
			if p.ch.isSec(f.Params[i].Type()) {
				s := flow.Sym("param", "section"+itoa(i), secT)
				if k.subj == nil {
					k.subj, actual = s, a
				}
				k.args = append(k.args, s)
			} else {
				k.args = append(k.args, a)
			}
		}
		if k.subj == nil {
			return "", nil
		}
		if keys[k.key] == nil {
			keys[k.key] = k
			todo = append(todo, k)
		}
		return k.key, actual
	}
	pageEvent := func(s *flow.State, path, sec *flow.Term) {
		kind := "page"
		if s.Has("page", sec, path) {
			kind = "page-again"
		}
		s.Add(kind, sec, path)
	}
	call := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		switch {
		case ci.Name == "invoke:("+renderPkg+".Engine).FileExtension":
			return one(s, flow.PureResult(ci)), true
		case strings.HasPrefix(ci.Name, "invoke:("+renderPkg+".Engine).RenderSection") && len(ci.Args) == 3:
			outs := forkErr(x, s, ci)
			w := unwrap(ci.Args[1])
			for _, o := range outs {
				if o.St.IsNil(o.Res) != 1 {
					continue
				}
				o.St.Add("rendered", w, ci.Args[2])
				for _, op := range o.St.Items("open") {
					if w.Mentions(op.Terms[0]) {
						pageEvent(o.St, op.Terms[1], ci.Args[2])
					}
				}
			}
			return outs, true
		case ci.Name == "os.OpenFile" || ci.Name == "os.Create":
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				f := flow.Sym("result", "0", nil, o.Res)
				o.St.Add("open", f, ci.Args[0])
				if ci.Name == "os.OpenFile" {
					if n, ok := ci.Args[1].IsInt(); ok && (n&0x3 == 0 || n&0x40 == 0 || n&0x200 == 0 || n&0x480 != 0) {
						o.St.AddSticky("badflags", f, ci.Args[1])
					}
				}
			}
			return outs, true
		case ci.Name == "os.WriteFile" || ci.Name == "io/ioutil.WriteFile":
			for _, r := range s.Items("rendered") {
				if ci.Args[1].Mentions(r.Terms[0]) {
					pageEvent(s, ci.Args[0], r.Terms[1])
				}
			}
			return forkErr(x, s, ci), true
		}
		if f := ci.Callee; f != nil && p.rec[f] && x.InModule(f) {
			if k, sec := add(f, ci.Args); k != "" {
				outs := []flow.Outcome{{St: s}}
				if sig := f.Signature.Results(); sig.Len() == 1 {
					outs = forkErr(x, s, ci)
				}
				for _, o := range outs {
					if o.Res == nil || o.St.IsNil(o.Res) == 1 {
						kind := "hand:" + k
						if o.St.Has(kind, sec) {
							kind = "handagain:" + k
						}
						o.St.Add(kind, sec)
					}
				}
				return outs, true
			}
		}
		return nil, false
	}
	root := &pwFn{key: short(p.fn.String()), fn: p.fn, args: []*flow.Term{recv, flow.Sym("param", "section1", secT)}}
	root.subj = root.args[1]
	keys[root.key] = root
	todo = append(todo, root)
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		r := &flow.Rule{Call: call, Keep: loopSyms}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		x, exits := p.c.run(r, k.fn, k.args, nil)
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				continue
			}
			seen := map[string]bool{}
			pages := func(s *flow.State) {
				for _, kind := range []string{"page", "page-again"} {
					for _, it := range s.Items(kind) {
						key := it.Terms[0].String() + it.Terms[1].String()
						if file != nil && !seen[key] {
							seen[key] = true
							file(e, it.Terms[1], it.Terms[0], e.Pos)
						}
					}
				}
			}
			pages(e.St)
			for _, ls := range x.LoopSums {
				for _, it := range ls.Iters {
					pages(it.St)
				}
			}
			if sum != nil {
				sum(k, x, e)
			}
		}
	}
}

func runC07(c *C) {
	ch := newChain(c)
	p := newPageWriter(c, ch)
	role := map[string]string{} // "" unknown, "tree" page+children, "below" children only, "page", "delegate:key"
	type childRef struct {
		from, to string
		paged    bool // the loop itself decides the child's page
		pos      token.Pos
		path     string
	}
	refs := []childRef{}
	hands := func(s *flow.State, t *flow.Term) (out []string, again bool) {
		for _, it := range stateKinds(s, "hand:") {
			if it.Terms[0] == t {
				out = append(out, it.Kind[len("hand:"):])
			}
		}
		for _, it := range stateKinds(s, "handagain:") {
			if it.Terms[0] == t {
				again = true
			}
		}
		return
	}
	paged := func(s *flow.State, t *flow.Term) int {
		n := 0
		for _, kind := range []string{"page", "page-again"} {
			for _, it := range s.Items(kind) {
				if it.Terms[0] == t {
					n++
				}
			}
		}
		return n
	}
	p.run(nil, func(f *pwFn, x *flow.Exec, e exitRec) {
		c.Obl("successful paths")
		bad := func(key, f2 string, a ...any) { c.VP(key+":"+f.fn.Name(), e.Pos, e.St.Path(), f2, a...) }
		subj := f.subj
		if e.St.Count("badflags") > 0 {
			bad("flags", "a page is not written to a fresh file (open flags %s)", e.St.Items("badflags")[0].Terms[1])
		}
		n := paged(e.St, subj)
		hs, again := hands(e.St, subj)
		if again || len(hs) > 1 {
			bad("twice", "%s hands the section on more than once", f.fn.Name())
		}
		for _, kind := range []string{"page", "page-again"} {
			for _, it := range e.St.Items(kind) {
				if t := it.Terms[0]; t != subj && !loopVariant(x, t) {
					bad("other", "%s writes a page for %s", f.fn.Name(), t)
				}
			}
		}
		// children
		kids := 0
		for key, sum := range x.LoopSums {
			over, el, _ := sumElem(x, sum)
			if over == nil || over != flow.Field(subj, "Children", nil) {
				for _, it := range sum.Iters {
					if len(stateKinds(it.St, "hand:")) > len(stateKinds(e.St, "hand:")) {
						bad("loop", "%s hands sections on in a loop over %s", f.fn.Name(), termStr(over))
					}
				}
				continue
			}
			used := false
			for _, it := range sum.Iters {
				h, ag := hands(it.St, el)
				if len(h) > 0 || ag || paged(it.St, el) > 0 {
					used = true
				}
			}
			if !used {
				continue
			}
			if !e.St.Has("through:"+key) && !e.St.Has("left:"+key) {
				continue
			}
			// does this path go through the loop?
			if e.St.Has("left:" + key) {
				bad("children", "%s can leave out children", f.fn.Name())
			}
			kids++
			for _, it := range sum.On(e.St) {
				h, ag := hands(it.St, el)
				if ag || len(h) != 1 {
					bad("children", "a child is handed on %d times (%s)", len(h), it.St.Path())
					continue
				}
				refs = append(refs, childRef{from: f.key, to: h[0], pos: e.Pos, path: it.St.Path()})
				// pages decided by the loop
				r := &refs[len(refs)-1]
				np := paged(it.St, el)
				split := []*flow.Term{ch.boolField(subj, "SplitSections")}
				m := map[*flow.Term]*flow.Term{ch.parent(el): subj}
				s := it.St.SubstState(m)
				if s == nil {
					continue
				}
				must := consistent(s, split...) != nil
				may := consistent(s, flow.Not(split[0])) != nil
				if np > 0 {
					r.paged = true
				}
				if np == 0 && must && !may {
					r.paged = true // decided not to, wrongly, or the callee does
					r.paged = false
				}
				if np > 1 {
					bad("children", "the page of a child is written more than once")
				}
				if np == 1 && may {
					bad("children", "the page of a child is written although its parent does not split (%s)", it.St.Path())
				}
				if np == 0 && must {
					r.paged = false
					refs[len(refs)-1].path = "nopage " + it.St.Path()
				}
			}
		}
		noKids := e.St.Decide(flow.Eq(flow.Len(flow.Field(subj, "Children", nil)), flow.Int(0))) == 1
		myRole := ""
		switch {
		case len(hs) == 1 && n == 0 && kids == 0:
			myRole = "delegate:" + hs[0]
		case len(hs) == 1 && kids == 0:
			myRole = "tree+" + hs[0] // page here, the rest there
		case kids == 0 && noKids:
			myRole = ""
		case kids == 0 && len(hs) == 0:
			bad("children", "%s succeeds without handing on the children", f.fn.Name())
		case kids > 1:
			bad("children", "%s hands every child on %d times", f.fn.Name(), kids)
		case len(hs) > 0:
			bad("twice", "%s hands on both the section and its children", f.fn.Name())
		}
		if n > 1 {
			bad("page", "%s writes the page of the section %d times", f.fn.Name(), n)
		}
		own := ch.ownPage(subj)
		if n == 1 {
			if !excluded(e.St, ch.notOwnPage(subj)) {
				bad("page", "a page is written for a section although its parent does not split")
			}
		}
		// a path which writes no page must exclude every reason for one, or the
		// function never writes pages
		if n == 0 && !excluded(e.St, own...) {
			role[f.key+"#nopage"] = e.St.Path()
			role[f.key+"#pos"] = c.P.pos(e.Pos)
		}
		if n == 1 {
			role[f.key+"#page"] = "yes"
		}
		if myRole != "" {
			if old := role[f.key]; old != "" && old != myRole && strings.TrimPrefix(old, "tree+") != strings.TrimPrefix(strings.TrimPrefix(myRole, "tree+"), "delegate:") && strings.TrimPrefix(old, "delegate:") != strings.TrimPrefix(strings.TrimPrefix(myRole, "tree+"), "delegate:") {
				bad("delegate", "%s hands the section on to different functions", f.fn.Name())
			}
			role[f.key] = strings.TrimPrefix(myRole, "delegate:")
			role[f.key] = strings.TrimPrefix(role[f.key], "tree+")
		}
	})
	// which functions write the page of the section they are given
	var writes func(key string, d int) bool
	writes = func(key string, d int) bool {
		if d > 6 {
			return false
		}
		if role[key+"#page"] == "yes" {
			return true
		}
		if to := role[key]; to != "" {
			return writes(to, d+1)
		}
		return false
	}
	root := short(p.fn.String())
	check := func(key string) {
		if role[key+"#page"] == "yes" && role[key+"#nopage"] != "" {
			c.VP("page:"+key, p.fn.Pos(), role[key+"#nopage"], "%s can leave out the page of a section which has its own", key)
		}
		if to := role[key]; to != "" && role[key+"#page"] == "yes" && writes(to, 0) {
			c.V("page:"+key, p.fn.Pos(), "%s and %s both write the page of a section", key, to)
		}
	}
	for k := range map[string]bool{root: true} {
		if !writes(k, 0) {
			c.V("page:"+k, p.fn.Pos(), "no page is written for the section given")
		}
	}
	seen := map[string]bool{}
	for _, r := range refs {
		c.Obl("children handed on")
		w := writes(r.to, 0)
		if w && r.paged {
			c.VP("children:"+r.from, r.pos, r.path, "the page of a child is written twice")
		}
		if !w && !r.paged && strings.HasPrefix(r.path, "nopage ") {
			c.VP("children:"+r.from, r.pos, strings.TrimPrefix(r.path, "nopage "), "the page of a child whose parent splits is not written")
		}
		for _, k := range []string{r.from, r.to} {
			if !seen[k] {
				seen[k] = true
				check(k)
			}
		}
	}
	if !seen[root] {
		check(root)
	}
	// templates: children in place unless the section splits
	for _, pk := range []string{"html", "text"} {
		ts := c.templates(renderPkg + "/" + pk)
		w := c.events(renderPkg+"/"+pk, "section.tmpl", ts)
		n := 0
		for _, e := range w.events {
			if e.Expr != "render($.Children[])" {
				continue
			}
			c.Obl("children in section templates")
			if len(e.Conds) == 1 && e.Conds[0] == "!$.SplitSections" {
				n++
			} else {
				c.V("template:"+pk, token.NoPos, "%s renders the children of a section under the condition %q instead of exactly if it does not split", tmplWhere(renderPkg+"/"+pk, "section.tmpl", e.Line), strings.Join(e.Conds, " and "))
			}
		}
		if n != 1 {
			c.V("template:"+pk, token.NoPos, "render/%s/section.tmpl renders the children of sections which do not split %d times", pk, n)
		}
		w = c.events(renderPkg+"/"+pk, "page.tmpl", ts)
		n = 0
		for _, e := range w.events {
			if e.Expr == "render($)" && len(e.Conds) == 0 {
				n++
			}
		}
		if n != 1 {
			c.V("template:"+pk, token.NoPos, "render/%s/page.tmpl renders its section %d times", pk, n)
		}
	}
	c.Need("successful paths", 1)
	c.Need("children handed on", 1)
}

// stateKinds lists the sticky items whose kind has a prefix.
func stateKinds(s *flow.State, prefix string) []flow.Item {
	out := []flow.Item{}
	for _, it := range s.Auto {
		if strings.HasPrefix(it.Kind, prefix) {
			out = append(out, it)
		}
	}
	return out
}

// loopVariant: the term belongs to an iteration of a loop.
func loopVariant(x *flow.Exec, t *flow.Term) bool {
	return t.Has(func(u *flow.Term) bool { return x.SymLoop[u] != "" || u.Op == "rangekey" || u.Op == "restidx" })
}
