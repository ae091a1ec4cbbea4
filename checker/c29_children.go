package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C29", Title: "Child sections are loaded relative to their parent and linked both ways",
		Rule:  "The section and include functions are summarised: the child comes from evaluating the given node, or the file at the given path relative to the directory of the including section's file, with the section the function is called in as its parent; it is appended once on success and nothing is appended on failure. Evaluating an included file is reached only if no section from the including one upwards has that very path. The file of a section is verified by induction to be the nearest path upwards. The makers of sections return a new section with the given parent and path, set before its content is evaluated in it. Nobody else links sections.",
		Trust: []string{"path/filepath"},
		Run:   runC29,
	})
}

func runC29(c *C) {
	b := newBasePlugin(c)
	ch := b.ch
	strT := types.Typ[types.String]
	kidsT := fieldTypeOf(b.secN, "Children")
	filePathRule(c, ch, b.secN)
	type call struct{ fn, parent, source *flow.Term }
	isMaker := func(ci *flow.CallInfo) string {
		for _, n := range []string{"EvaluateFile", "EvaluateNode"} {
			if ci.Name == "invoke:("+mod+".SectionProcessor)."+n || ci.Callee != nil && ci.Callee == c.P.method(mod+"/load", "Processor", n) {
				return n
			}
		}
		return ""
	}
	for _, f := range []struct{ name, maker string }{{"Section", "EvaluateNode"}, {"IncludeSection", "EvaluateFile"}} {
		fn, args, sec := b.method(f.name)
		if len(args) != 2 {
			c.V("anchor:"+f.name, fn.Pos(), "%s no longer takes one argument", f.name)
			continue
		}
		include := f.name == "IncludeSection"
		file := flow.Sym("pure", "filepath", strT, sec)
		isPath := func(x *flow.Exec, t *flow.Term) bool { return relPath(t, file, args[1]) }
		r := &flow.Rule{Keep: loopSyms}
		r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
			if exhausted {
				s.AddSticky("through:" + l.Key)
			}
		}
		preds := map[*ssa.Function]func(path *flow.Term) bool{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if t, ok := filePathCall(c, ci); ok {
				return one(s, t), true
			}
			if n := isMaker(ci); n != "" {
				if n != f.maker {
					c.VP("maker:"+f.name, ci.Pos, s.Path(), "%s evaluates its section with %s", f.name, n)
				}
				if ci.Args[1] != sec {
					c.VP("parent:"+f.name, ci.Pos, s.Path(), "%s makes a section with parent %s", f.name, ci.Args[1])
				}
				src := ci.Args[2]
				if !include && unwrap(src) != unwrap(args[1]) {
					c.VP("source:"+f.name, ci.Pos, s.Path(), "%s evaluates %s", f.name, src)
				}
				if include {
					if !isPath(x, src) {
						c.VP("source:"+f.name, ci.Pos, s.Path(), "an included section is read from %s", src)
					}
					c.Obl("included files")
					safe := false
					for _, cl := range ch.climbers(x) {
						sum := x.LoopSums[cl.loop]
						if cl.init != sec || sum == nil || !s.Has("through:"+cl.loop) && s.Decide(flow.Eq(cl.cur, flow.Nil())) != 1 {
							continue
						}
						ok := len(sum.Iters) > 0
						same := flow.Eq(flow.Field(cl.cur, "Path", strT), src)
						for _, it := range sum.Iters {
							ok = ok && (excluded(it.St, []*flow.Term{same}) || flagged(x, s, cl, it.St, it.Steps, same)) && it.Steps[cl.cur] != nil && it.Steps[cl.cur] != cl.cur
						}
						// leaving early at the root must have checked it
						if st := s.SubstState(cl.subst); st != nil && st.IsNil(cl.cur) != 1 {
							ok = ok && excluded(st, []*flow.Term{flow.Not(flow.Eq(ch.parent(cl.cur), flow.Nil()))}) && excluded(st, []*flow.Term{flow.Eq(flow.Field(cl.cur, "Path", strT), src)})
						}
						safe = safe || ok
					}
					for _, it := range s.Items("includes") {
						safe = safe || it.Terms[0] == sec && it.Terms[1] == src && s.Decide(it.Terms[2]) == 0
					}
					if !safe {
						c.VP("cycle", ci.Pos, s.Path(), "a file is included although a section upwards may be from the same file")
					}
				}
				s.AddSticky("made", flow.StrConst(f.maker))
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					o.St.AddSticky("child", flow.Sym("result", "0", ch.secT, o.Res), flow.Sym("result", "1", types.Universe.Lookup("error").Type(), o.Res))
				}
				return outs, true
			}
			// a predicate over the sections upwards
			if g := ci.Callee; g != nil && x.InModule(g) && len(ci.Args) == 2 && ch.isSec(g.Params[0].Type()) && types.Identical(g.Params[1].Type(), strT) && c.P.recursive()[g] {
				if preds[g] == nil {
					ok := ch.exists(g, func(cur *flow.Term, a []*flow.Term) *flow.Term {
						return flow.Eq(flow.Field(cur, "Path", strT), a[1])
					})
					preds[g] = func(*flow.Term) bool { return ok }
				}
				if preds[g](nil) {
					t := flow.Sym("pure", "includes", types.Typ[types.Bool], ci.Args...)
					s.AddSticky("includes", ci.Args[0], ci.Args[1], t)
					return one(s, t), true
				}
			}
			return nil, false
		}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base == sec && field != "Children" || base != sec && (field == "Children" || field == "Parent" || field == "Path") {
				c.VP("store:"+f.name, instr.Pos(), s.Path(), "%s sets %s of %s", f.name, field, base)
			}
		})
		_, exits := c.run(r, fn, args, nil)
		good, refused := 0, 0
		for _, e := range exits {
			bad := func(m string, as ...any) { c.VP("outcome:"+f.name, e.Pos, e.St.Path(), m, as...) }
			old := flow.Field(sec, "Children", kidsT)
			kids := e.St.LoadField(sec, "Children", kidsT)
			made := e.St.Items("child")
			c.Obl("outcomes of " + f.name)
			if errPath(e.St, e.Res) {
				if kids != old {
					bad("%s fails but leaves the children %s", f.name, kids)
				}
				if len(made) == 0 {
					refused++
				}
				continue
			}
			good++
			if len(made) != 1 {
				bad("%s succeeds having evaluated %d sections", f.name, len(made))
				continue
			}
			if e.St.IsNil(made[0].Terms[1]) != 1 {
				bad("%s can succeed although its section failed", f.name)
			}
			if got := appended(kids, old); got == nil || unwrap(got) != made[0].Terms[0] {
				bad("%s leaves the children %s", f.name, kids)
			}
		}
		if good == 0 {
			c.V("outcome:"+f.name, fn.Pos(), "%s never succeeds", f.name)
		}
		if include && refused == 0 {
			c.V("cycle", fn.Pos(), "no include is ever refused")
		}
	}
	// the makers
	m := newEvalModel(c)
	for _, mk := range newSectionMakers(c) {
		onlyNew := b.onlyNew(mk.what, "Parent", "Children", "Path", "Processor")
		_, exits := c.run(&flow.Rule{Keep: loopSyms, Store: onlyNew, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if _, v := m.visit(ci); v != nil {
				con := unwrap(s.LoadField(unwrap(v), m.sec, ch.secT))
				s.AddSticky("in", con)
				if con.Op != "alloc" {
					c.VP("new:"+mk.what, ci.Pos, s.Path(), "%s evaluates in %s, which is not a new section", mk.what, con)
				}
				if got := s.LoadField(con, "Parent", ch.secT); got != mk.args[1] {
					c.VP("parent:"+mk.what, ci.Pos, s.Path(), "%s evaluates a section whose parent is %s", mk.what, got)
				}
				if got := s.LoadField(con, "Path", strT); got != mk.path {
					c.VP("path:"+mk.what, ci.Pos, s.Path(), "%s evaluates a section whose path is %s", mk.what, got)
				}
				if proc := s.LoadField(con, "Processor", fieldTypeOf(b.secN, "Processor")); unwrap(proc) != mk.args[0] {
					c.VP("processor:"+mk.what, ci.Pos, s.Path(), "%s evaluates a section whose processor is %s", mk.what, proc)
				}
				for _, f := range []string{"Children"} {
					if got := s.LoadField(con, f, kidsT); !emptyList(got) && got != flow.ZeroOf(kidsT) {
						c.VP("fresh:"+mk.what, ci.Pos, s.Path(), "%s evaluates a section with %s", mk.what, got)
					}
				}
			}
			return m.call(x, s, ci)
		}}, mk.fn, mk.args, nil)
		good := 0
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				continue
			}
			good++
			c.Obl("sections made")
			in := e.St.Items("in")
			if len(in) != 1 || in[0].Terms[0] != unwrap(e.Res[0]) {
				c.VP("new:"+mk.what, e.Pos, e.St.Path(), "%s returns %s, which is not the section it evaluated", mk.what, e.Res[0])
				continue
			}
			sec := in[0].Terms[0]
			if got := e.St.LoadField(sec, "Parent", ch.secT); got != mk.args[1] {
				c.VP("parent:"+mk.what, e.Pos, e.St.Path(), "%s returns a section whose parent is %s", mk.what, got)
			}
			if got := e.St.LoadField(sec, "Path", strT); got != mk.path {
				c.VP("path:"+mk.what, e.Pos, e.St.Path(), "%s returns a section whose path is %s", mk.what, got)
			}
		}
		if good == 0 {
			c.V("new:"+mk.what, mk.fn.Pos(), "%s never succeeds", mk.what)
		}
	}
	// nobody else
	makers := []*ssa.Function{}
	for _, mk := range newSectionMakers(c) {
		makers = append(makers, mk.fn)
	}
	made := c.P.reach(makers...)
	links := c.P.reach(c.meth(basePkg, "Plugin", "Section"), c.meth(basePkg, "Plugin", "IncludeSection"))
	for _, f := range []string{"Parent", "Children", "Path", "Processor"} {
		for _, st := range c.fieldStores(b.secN, f) {
			c.Obl("stores of links")
			if !(f == "Children" && links[st.Fn]) && !st.Fresh && !made[st.Fn] && c.P.live()[st.Fn] {
				c.V("store:"+f+":"+st.Fn.Name(), st.Instr.Pos(), "%s sets %s of a section outside of the functions which link sections", short(st.Fn.String()), f)
			}
		}
	}
	c.Need("file paths", 1)
	c.Need("included files", 1)
	c.Need("sections made", 2)
}

// relPath: the path of a file relative to the directory of another file.
func relPath(t, file, rel *flow.Term) bool {
	name := func(t *flow.Term) string {
		if t.Op == "pure" {
			return t.Str
		}
		return flow.CallName(t)
	}
	if !strings.HasSuffix(name(t), "filepath.Join") {
		return false
	}
	a := t.Args
	if len(a) == 1 && a[0].Op == "cat" {
		a = nil
		for _, p := range t.Args[0].Args {
			if p.Op != "one" {
				return false
			}
			a = append(a, p.Args[0])
		}
	}
	return len(a) == 2 && strings.HasSuffix(name(a[0]), "filepath.Dir") && a[0].Args[0] == file && a[1] == rel
}

// flagged: a flag of the loop remembers that cond held, and ends the loop.
func flagged(x *flow.Exec, s *flow.State, cl climbing, it *flow.State, steps map[*flow.Term]*flow.Term, cond *flow.Term) bool {
	for f, rec := range x.Rec {
		if x.SymLoop[f] != cl.loop || f.Typ == nil || !isBool(f.Typ) || len(rec.Init) != 1 || it.Decide(f) != 0 || s.Decide(f) != 0 || steps[f] == nil {
			continue
		}
		for i := range rec.Init {
			if v, ok := i.IsBool(); ok && !v {
				if in := consistent(it, cond); in == nil || in.Decide(steps[f]) == 1 {
					return true
				}
			}
		}
	}
	return false
}
