package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C12", Title: "Served and rebuilt content is never stale",
		Rule:  "EvaluateFile is executed abstractly with its helpers inlined. On every path the syntax tree evaluated must either be parsed from the given path on that path, or come out of the cache under that path where the exact equality of its recorded time and the time of a stat of the path made on this path is an established fact. Every entry recorded must be for the path its tree was parsed from, hold a tree whose parsing succeeded, and a time from a stat of that path made before it was read. Every engine's LoadTemplates: a successful path which parses nothing must have compared the count and, in every iteration over all template files, the time of every file with the recorded ones; one which parses must start from a fresh clone of the built-in templates, parse each file listed under its base name, and record exactly the times of all files taken before reading; a failing path must either change nothing or forget the recorded times, and forgotten times must always lead to loading.",
		Trust: []string{"the file system's modification times change with the content", "filepath.Glob lists all matching files"},
		Run:   runC12,
	})
}

// fsModel models the file system: stats, reads and times.
type fsModel struct {
	c     *C
	timeT types.Type
}

func (m *fsModel) mtime(info *flow.Term) *flow.Term {
	return flow.Sym("pure", "modtime", m.timeT, unwrap(info))
}

// same is whether two times are exactly equal, if established.
func (m *fsModel) same(s *flow.State, a, b *flow.Term) bool {
	if s.Decide(flow.Eq(a, b)) == 1 || a == b {
		return true
	}
	for _, p := range [][2]*flow.Term{{a, b}, {b, a}} {
		if s.Decide(flow.Sym("pure", "time.Equal", types.Typ[types.Bool], p[0], p[1])) == 1 {
			return true
		}
		if s.Decide(flow.Eq(flow.Sym("pure", "time.Compare", types.Typ[types.Int], p[0], p[1]), flow.Int(0))) == 1 {
			return true
		}
		u := func(t *flow.Term) *flow.Term { return flow.Sym("pure", "time.UnixNano", types.Typ[types.Int64], t) }
		if s.Decide(flow.Eq(u(p[0]), u(p[1]))) == 1 {
			return true
		}
	}
	return false
}

func (m *fsModel) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	fork := func(f func(s *flow.State, r0 *flow.Term)) []flow.Outcome {
		outs := forkErr(x, s, ci)
		t, _ := ci.Result.(*types.Tuple)
		for _, o := range outs {
			if t == nil || t.Len() < 2 {
				continue
			}
			if o.St.IsNil(flow.Sym("result", itoa(t.Len()-1), t.At(t.Len()-1).Type(), o.Res)) == 1 {
				f(o.St, flow.Sym("result", "0", t.At(0).Type(), o.Res))
			}
		}
		return outs
	}
	switch ci.Name {
	case "os.Stat", "os.Lstat":
		if ci.Name == "os.Lstat" {
			return nil, false
		}
		return fork(func(s *flow.State, r *flow.Term) { s.Add("stat", r, ci.Args[0]) }), true
	case "(*os.File).Stat":
		return fork(func(s *flow.State, r *flow.Term) {
			for _, it := range s.Items("opened") {
				if it.Terms[0] == ci.Args[0] {
					s.Add("stat", r, it.Terms[1])
				}
			}
		}), true
	case "os.Open":
		return fork(func(s *flow.State, r *flow.Term) { s.Add("opened", r, ci.Args[0]) }), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		return fork(func(s *flow.State, r *flow.Term) { m.read(s, r, ci.Args[0]) }), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		return fork(func(s *flow.State, r *flow.Term) {
			if p := m.fileOf(s, ci.Args[0]); p != nil {
				m.read(s, r, p)
			}
		}), true
	case "invoke:(io/fs.FileInfo).ModTime", "invoke:(os.FileInfo).ModTime":
		return one(s, m.mtime(ci.Args[0])), true
	case "(time.Time).Equal", "(time.Time).Compare", "(time.Time).UnixNano":
		t := ci.Result
		if tt, ok := t.(*types.Tuple); ok {
			t = tt.At(0).Type()
		}
		return one(s, flow.Sym("pure", "time."+strings.TrimPrefix(ci.Name, "(time.Time)."), t, ci.Args...)), true
	}
	return nil, false
}

// fileOf is the path of the open file a reader reads.
func (m *fsModel) fileOf(s *flow.State, r *flow.Term) *flow.Term {
	for _, it := range s.Items("opened") {
		if r.Mentions(it.Terms[0]) {
			return it.Terms[1]
		}
	}
	return nil
}

// read notes that data holds content read from a path now, after these stats.
func (m *fsModel) read(s *flow.State, data, path *flow.Term) {
	s.Add("read", data, path)
	for _, it := range s.Items("stat") {
		if it.Terms[1] == path {
			s.Add("before", data, it.Terms[0])
		}
	}
}

func runC12(c *C) {
	m := &fsModel{c: c}
	for _, pk := range c.P.SSA.AllPackages() {
		if pk.Pkg.Path() == "time" {
			m.timeT = pk.Pkg.Scope().Lookup("Time").Type()
		}
	}
	if m.timeT == nil {
		c.V("anchor:time", token.NoPos, "nothing uses times")
		return
	}
	c.freshParse(m)
	for _, e := range c.engines() {
		c.freshTemplates(m, e)
	}
	c.Need("trees evaluated", 1)
	c.Need("reloads", 2)
}

// cacheFields finds the fields for syntax and time of a cache entry.
func (c *C) cacheFields(m *fsModel, t types.Type) (node, mod string, ok bool) {
	ni := c.P.named(astPkg, "Node")
	st := structOf(t)
	if st == nil {
		return "", "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if types.Identical(f.Type(), ni) {
			node = f.Name()
		}
		if types.Identical(f.Type(), m.timeT) {
			mod = f.Name()
		}
	}
	return node, mod, node != "" && mod != ""
}

const astPkg = mod + "/ast"

func (c *C) freshParse(m *fsModel) {
	fn := c.meth(mod+"/load", "Processor", "EvaluateFile")
	nodeT := c.P.named(astPkg, "Node")
	path := flow.Sym("param", "path", types.Typ[types.String])
	args := []*flow.Term{}
	for i, p := range fn.Params {
		if types.Identical(p.Type(), types.Typ[types.String]) {
			args = append(args, path)
			continue
		}
		args = append(args, flow.Sym("param", "arg"+itoa(i), p.Type()))
	}
	norm := func(t *flow.Term) *flow.Term {
		t = unwrap(t)
		for {
			n := flow.CallName(t)
			if n == "path/filepath.Clean" || n == "path.Clean" {
				t = unwrap(t.Args[0])
				continue
			}
			return t
		}
	}
	// fresh: the time is one of a stat of the path made on this path
	statOf := func(s *flow.State, t, p *flow.Term) *flow.Term {
		for _, it := range s.Items("stat") {
			if t == m.mtime(it.Terms[0]) && norm(it.Terms[1]) == norm(p) {
				return it.Terms[0]
			}
		}
		return nil
	}
	record := func(s *flow.State, k, v *flow.Term, nf, mf string, pos token.Pos) {
		c.Obl("trees recorded")
		node, mt := unwrap(get(s, v, nf, nodeT)), get(s, v, mf, m.timeT)
		if node.Op == "field" && node.Str == nf && unwrap(node.Args[0]).Op == "lookup" {
			src := unwrap(node.Args[0])
			old := flow.Field(node.Args[0], mf, m.timeT)
			if norm(src.Args[1]) != norm(k) || mt != old && !m.same(s, mt, old) {
				c.VP("rerecord", pos, s.Path(), "a cached tree is recorded with another path or time: %s, %s", k, mt)
			}
			return
		}
		okParsed, before := false, false
		for _, it := range s.Items("parsed") {
			if it.Terms[0] == node && norm(it.Terms[1]) == norm(k) {
				okParsed = true
			}
		}
		info := statOf(s, mt, k)
		before = info != nil && s.Has("before", node, info)
		if !okParsed {
			c.VP("record", pos, s.Path(), "what is recorded for %s is not a tree successfully parsed from it but %s", k, node)
		} else if !before {
			c.VP("time", pos, s.Path(), "the time recorded with a tree, %s, is not its file's taken before it was read", mt)
		}
	}
	r := &flow.Rule{}
	used := map[*ssa.Function]bool{}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		f := ci.Callee
		switch {
		case f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == astPkg && strings.HasPrefix(f.Name(), "Parse") && f.Signature.Recv() == nil && f.Signature.Results().Len() == 2:
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				s := o.St
				t := ci.Result.(*types.Tuple)
				if s.IsNil(flow.Sym("result", "1", t.At(1).Type(), o.Res)) != 1 {
					continue
				}
				node := flow.Sym("result", "0", t.At(0).Type(), o.Res)
				var src *flow.Term
				if f.Name() == "ParseFile" {
					src = ci.Args[0]
					m.read(s, node, src)
				} else {
					src = m.fileOf(s, ci.Args[1])
					if src != nil {
						m.read(s, node, src)
					}
					for _, it := range s.Items("read") {
						if src == nil && ci.Args[1].Mentions(it.Terms[0]) {
							src = it.Terms[1]
							for _, b := range s.Items("before") {
								if b.Terms[0] == it.Terms[0] {
									s.Add("before", node, b.Terms[1])
								}
							}
						}
					}
				}
				if src != nil {
					s.Add("parsed", node, src)
				}
			}
			return outs, true
		case ci.Name == "invoke:("+astPkg+".Node).Visit":
			c.Obl("trees evaluated")
			node := unwrap(ci.Args[0])
			ok := false
			why := "is " + node.String()
			for _, it := range s.Items("parsed") {
				ok = ok || it.Terms[0] == node && norm(it.Terms[1]) == path
			}
			if !ok && node.Op == "field" && unwrap(node.Args[0]).Op == "lookup" {
				e := unwrap(node.Args[0])
				why = "comes out of the cache without having established that the file's time is exactly the one recorded"
				if _, mf, okF := c.cacheFields(m, node.Args[0].Typ); okF && norm(e.Args[1]) == path {
					old := flow.Field(node.Args[0], mf, m.timeT)
					for _, it := range s.Items("stat") {
						ok = ok || norm(it.Terms[1]) == path && m.same(s, m.mtime(it.Terms[0]), old)
					}
				}
			}
			if !ok {
				c.VP("stale", ci.Pos, s.Path(), "the tree evaluated %s", why)
			}
			return forkErr(x, s, ci), true
		case ci.Name == "(*sync.Map).Load":
			return one(s, flow.Sym("tuple", "", nil, flow.Sym("lookup", "", types.Universe.Lookup("any").Type(), ci.Args[0], ci.Args[1]), flow.Sym("pure", "has", types.Typ[types.Bool], ci.Args[0], ci.Args[1]))), true
		case ci.Name == "(*sync.Map).Store":
			v := unwrap(ci.Args[2])
			if nf, mf, ok := c.cacheFields(m, v.Typ); ok {
				record(s, ci.Args[1], v, nf, mf, ci.Pos)
			}
			return one(s, flow.Nil()), true
		}
		return m.call(x, s, ci)
	}
	r.MapUpdate = func(x *flow.Exec, s *flow.State, mp, k, v *flow.Term, ins ssa.Instruction) {
		mt, ok := mp.Typ.Underlying().(*types.Map)
		if !ok {
			return
		}
		used[ins.Parent()] = true
		if nf, mf, ok := c.cacheFields(m, mt.Elem()); ok {
			record(s, k, v, nf, mf, ins.Pos())
		}
	}
	c.run(r, fn, args, nil)
	// nobody else records trees
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					mu, ok := i.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					if _, _, ok := c.cacheFields(m, mu.Map.Type().Underlying().(*types.Map).Elem()); ok && !used[f] {
						c.V("foreign:"+f.Name(), mu.Pos(), "%s records syntax trees outside of EvaluateFile", f.Name())
					}
				}
			}
		}
	}
}

func (c *C) freshTemplates(m *fsModel, e types.Type) {
	fn := c.engineMethod(e, "LoadTemplates")
	name := typeName(e)
	st := structOf(e)
	var times *types.Var
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(mt.Elem(), m.timeT) {
			times = st.Field(i)
		}
	}
	recv := flow.Sym("param", "engine", fn.Params[0].Type())
	dir := flow.Sym("param", "dir", fn.Params[1].Type())
	timesOf := func(s *flow.State) *flow.Term { return s.LoadField(recv, times.Name(), times.Type()) }
	var oldTimes *flow.Term
	if times != nil {
		oldTimes = flow.Field(recv, times.Name(), times.Type())
	}
	isTmpl := func(t types.Type) bool { return strings.HasSuffix(t.String(), "template.Template") }
	isList := func(t *flow.Term) bool {
		n := flow.CallName(unwrap(t))
		if n == "" && t.Op == "result" {
			n = flow.CallName(t.Args[0])
		}
		return n == "path/filepath.Glob" || n == "os.ReadDir"
	}
	r := &flow.Rule{Keep: func(t *flow.Term) bool { return loopSyms(t) || t == oldTimes }}
	maps := map[*flow.Term]bool{}      // of template times built on the way
	fresh := func(t *flow.Term) bool { // a clone made on this path of a package's templates
		return t.Has(func(u *flow.Term) bool { return strings.HasSuffix(flow.CallName(u), "template.Template).Clone") })
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		n := ci.Name
		switch {
		case n == "path/filepath.Glob":
			if !ci.Args[0].Mentions(dir) {
				c.VP("dir:"+name, ci.Pos, s.Path(), "the templates listed are those of %s", ci.Args[0])
			}
			return forkErr(x, s, ci), true
		case strings.HasSuffix(n, "template.Template).Clone"):
			if g := ci.Args[0]; g.Op != "global" && !(g.Op == "deref" && g.Args[0].Op == "global") {
				c.VP("clone:"+name, ci.Pos, s.Path(), "the templates start from %s instead of the built-in ones", ci.Args[0])
			}
			return forkErr(x, s, ci), true
		case strings.HasSuffix(n, "template.Must"):
			if x := ci.Args[0]; x.Typ != nil && isTmpl(x.Typ) {
				return one(s, x), true
			}
			return nil, false
		case strings.HasSuffix(n, "template.Template).New"):
			res := flow.Sym("newtmpl", "", recv.Typ, ci.Args...)
			return one(s, res), true
		case strings.HasSuffix(n, "template.Template).Funcs"), strings.HasSuffix(n, "template.Template).Option"), strings.HasSuffix(n, "template.Template).Delims"):
			return one(s, ci.Args[0]), true
		case strings.HasSuffix(n, "template.Template).Parse"):
			c.Obl("template files parsed")
			t := ci.Args[0]
			if t.Op != "newtmpl" {
				c.VP("parse:"+name, ci.Pos, s.Path(), "a template file replaces %s", t)
			} else {
				var src *flow.Term
				for _, it := range s.Items("read") {
					if ci.Args[1].Mentions(it.Terms[0]) {
						src = it.Terms[1]
					}
				}
				base := t.Args[1]
				if src == nil || !(flow.CallName(base) == "path/filepath.Base" && base.Args[0] == src || strings.HasSuffix(flow.CallName(base), "DirEntry).Name") && src.Mentions(base)) {
					c.VP("name:"+name, ci.Pos, s.Path(), "the template %s is made from the content of %s", base, src)
				}
				if !fresh(t.Args[0]) {
					c.VP("fresh:"+name, ci.Pos, s.Path(), "template files are added to templates loaded before")
				}
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					t2 := ci.Result.(*types.Tuple)
					if o.St.IsNil(flow.Sym("result", "1", t2.At(1).Type(), o.Res)) == 1 && src != nil {
						o.St.Add("parsed", src, t.Args[0])
					}
				}
				s.AddSticky("parsing", t.Args[0])
				for _, o := range outs {
					o.St.AddSticky("parsing", t.Args[0])
				}
				return outs, true
			}
			return forkErr(x, s, ci), true
		case strings.HasSuffix(n, "template.Template).ParseFiles"), strings.HasSuffix(n, "template.Template).ParseGlob"):
			c.Obl("template files parsed")
			if !fresh(ci.Args[0]) {
				c.VP("fresh:"+name, ci.Pos, s.Path(), "template files are added to templates loaded before")
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				o.St.AddSticky("parsing", ci.Args[0])
				t2 := ci.Result.(*types.Tuple)
				if o.St.IsNil(flow.Sym("result", "1", t2.At(1).Type(), o.Res)) == 1 {
					o.St.AddSticky("parsedall", ci.Args...)
				}
			}
			return outs, true
		case n == "maps.EqualFunc" || strings.HasPrefix(n, "maps.EqualFunc["):
			return one(s, flow.Sym("pure", "sametimes", types.Typ[types.Bool], ci.Args[0], ci.Args[1])), true
		case n == "maps.Equal" || strings.HasPrefix(n, "maps.Equal["):
			return one(s, flow.Sym("pure", "sametimes", types.Typ[types.Bool], ci.Args[0], ci.Args[1])), true
		}
		return m.call(x, s, ci)
	}
	r.MapUpdate = func(x *flow.Exec, s *flow.State, mp, k, v *flow.Term, ins ssa.Instruction) {
		if mt, ok := mp.Typ.Underlying().(*types.Map); ok && types.Identical(mt.Elem(), m.timeT) {
			ok := false
			for _, it := range s.Items("stat") {
				if v == m.mtime(it.Terms[0]) && k == it.Terms[1] {
					ok = true
					if len(s.Items("parsing")) > 0 {
						read := false
						for _, rd := range s.Items("read") {
							read = read || rd.Terms[1] == k && !s.Has("before", rd.Terms[0], it.Terms[0])
						}
						if read {
							c.VP("late:"+name, ins.Pos(), s.Path(), "the time of a template file is taken after it was read")
						}
					}
				}
			}
			if !ok {
				c.VP("time:"+name, ins.Pos(), s.Path(), "the time recorded for template file %s is %s", k, v)
			}
			s.Add("noted", mp, k)
			maps[mp] = true
		}
	}
	r.LoopExit = func(x *flow.Exec, s *flow.State, l *flow.Loop, exhausted bool, pos token.Pos) {
		if exhausted {
			s.AddSticky("through:" + l.Key)
		}
	}
	x, exits := c.run(r, fn, []*flow.Term{recv, dir}, nil)
	// each: every file listed had this done in an exhausted loop
	each := func(s *flow.State, had func(lk string, it flow.Iter, el *flow.Term) bool) bool {
		for lk, sum := range x.LoopSums {
			over, el, _ := sumElem(x, sum)
			if over == nil || !isList(over) {
				continue
			}
			if s.Decide(flow.Eq(flow.Len(over), flow.Int(0))) == 1 {
				return true
			}
			if !s.Has("through:"+lk) || s.Has("left:"+lk) || len(sum.Iters) == 0 {
				continue
			}
			all := true
			for _, it := range sum.On(s) {
				all = all && (!sameEntry(it.St, s) || had(lk, it, el))
			}
			if all {
				return true
			}
		}
		return false
	}
	noted := func(s *flow.State, mp *flow.Term) bool {
		return each(s, func(lk string, it flow.Iter, el *flow.Term) bool {
			for _, p := range it.St.Items("noted") {
				if p.Terms[0] == mp && (p.Terms[1] == el || p.Terms[1].Mentions(el)) {
					return true
				}
			}
			return false
		})
	}
	pathOfEl := func(t, el *flow.Term) bool { return t == el || t.Mentions(el) }
	// flag: this iteration sets a loop's flag to something the state excludes
	flagged := func(s *flow.State, it flow.Iter) bool {
		for sym, step := range it.Steps {
			if sym == step || sym.Typ == nil {
				continue
			}
			want := s.Decide(sym)
			if b, ok := step.IsBool(); ok && (want == 0 && b || want == 1 && !b) {
				return true
			}
		}
		return false
	}
	forgetful := false // a failing path forgets the times
	type quiet struct {
		s   *flow.State
		pos token.Pos
	}
	var quiets []quiet
	for _, e := range exits {
		s := e.St
		c.Obl("ways out of LoadTemplates")
		parsing := s.Items("parsing")
		begun := len(parsing) > 0
		// the engine's own templates were replaced
		replaced := false
		var cur *flow.Term
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			if isTmpl(f.Type()) {
				v := s.LoadField(recv, f.Name(), f.Type())
				if v != flow.Field(recv, f.Name(), f.Type()) && !v.IsNil() {
					replaced = true
					cur = v
				}
			}
		}
		if errPath(s, e.Res) {
			if replaced || begun && cur != nil {
				if times == nil {
					continue
				}
				t := timesOf(s)
				if s.IsNil(t) != 1 {
					c.VP("incomplete:"+name, e.Pos, s.Path(), "%s can fail after replacing templates and still consider the old ones loaded", fn.Name())
				} else {
					forgetful = true
				}
			} else if times != nil && timesOf(s) != oldTimes && s.IsNil(timesOf(s)) != 1 {
				c.VP("incomplete:"+name, e.Pos, s.Path(), "%s can fail and yet record new template times", fn.Name())
			}
			continue
		}
		if !replaced {
			quiets = append(quiets, quiet{s, e.Pos})
			continue
		}
		c.Obl("reloads")
		// all were parsed into the templates now used
		if !each(s, func(lk string, it flow.Iter, el *flow.Term) bool {
			for _, p := range it.St.Items("parsed") {
				if pathOfEl(p.Terms[0], el) && cur == p.Terms[1] {
					return true
				}
			}
			return false
		}) && len(s.Items("parsedall")) == 0 {
			c.VP("missing:"+name, e.Pos, s.Path(), "%s can succeed without having parsed every template file into the templates used", fn.Name())
		}
		if times == nil {
			continue
		}
		t := timesOf(s)
		if s.IsNil(t) == 1 {
			continue // loaded again next time
		}
		if t == oldTimes {
			c.VP("unrecorded:"+name, e.Pos, s.Path(), "%s loads templates but keeps the times of those before", fn.Name())
		} else if t.Op == "param" || !noted(s, t) {
			c.VP("times:"+name, e.Pos, s.Path(), "%s can record as loaded %s, which may lack files", fn.Name(), t)
		}
	}
	for _, q := range quiets {
		s := q.s
		c.Obl("skipped reloads")
		if times == nil {
			c.VP("skip:"+name, q.pos, s.Path(), "%s can skip loading although it records no times", fn.Name())
			continue
		}
		know := func(f func(s *flow.State) bool) bool {
			if f(s) {
				return true
			}
			// through a flag which started with it
			for sym, rec := range x.Rec {
				want := s.Decide(sym)
				if want < 0 || sym.Typ == nil {
					continue
				}
				all := len(rec.Init) > 0
				for init := range rec.Init {
					if b, ok := init.IsBool(); ok {
						if b == (want == 1) {
							all = false
						}
						continue
					}
					n := s.Clone()
					if !n.Assume(init, want == 1) {
						continue
					}
					all = all && f(n)
				}
				for _, it := range s.Items("began") {
					// it started with the other value
					b, ok := it.Terms[1].IsBool()
					all = all || it.Terms[0] == sym && ok && b != (want == 1)
				}
				// steps only ever move away from the wanted value
				for step := range rec.Steps {
					if step == sym {
						continue
					}
					if b, ok := step.IsBool(); !ok || b == (want == 1) {
						all = false
					}
				}
				if all {
					return true
				}
			}
			return false
		}
		countSame := false
		for _, sum := range x.LoopSums {
			over, _, _ := sumElem(x, sum)
			if over != nil && isList(over) {
				countSame = countSame || know(func(s *flow.State) bool { return s.Decide(flow.Eq(flow.Len(over), flow.Len(oldTimes))) == 1 })
			}
		}
		for mp := range maps {
			if noted(s, mp) && know(func(s *flow.State) bool { return s.Decide(flow.Eq(flow.Len(mp), flow.Len(oldTimes))) == 1 }) {
				countSame = true
			}
		}
		sameMaps := false
		// every entry of a map of the files is the one recorded
		byMap := false
		for lk, sum := range x.LoopSums {
			mp := sum.MapOver
			if mp == nil || !maps[mp] || !s.Has("through:"+lk) || s.Has("left:"+lk) || len(sum.Iters) == 0 || !noted(s, mp) {
				continue
			}
			_, el, k := sumElem(x, sum)
			all := true
			for _, it := range sum.On(s) {
				all = all && (!sameEntry(it.St, s) || flagged(s, it) || m.same(it.St, el, flow.Sym("lookup", "", m.timeT, oldTimes, k)))
			}
			byMap = byMap || all
		}
		for f, v := range s.Facts {
			if v && f.Op == "pure" && f.Str == "sametimes" && f.Mentions(oldTimes) {
				for _, a := range f.Args {
					sameMaps = sameMaps || a != oldTimes && noted(s, a)
				}
			}
		}
		if !sameMaps {
			if !countSame {
				c.VP("count:"+name, q.pos, s.Path(), "%s can skip loading without knowing that there are as many template files as were loaded", fn.Name())
			}
			if !byMap && !each(s, func(lk string, it flow.Iter, el *flow.Term) bool {
				if flagged(s, it) {
					return true
				}
				for _, sta := range it.St.Items("stat") {
					p := sta.Terms[1]
					if pathOfEl(p, el) && m.same(it.St, m.mtime(sta.Terms[0]), flow.Sym("lookup", "", m.timeT, oldTimes, p)) {
						return true
					}
				}
				for mp := range maps {
					a, b := flow.Sym("lookup", "", m.timeT, mp, el), flow.Sym("lookup", "", m.timeT, oldTimes, el)
					if m.same(it.St, a, b) && noted(s, mp) {
						return true
					}
				}
				return false
			}) {
				c.VP("skip:"+name, q.pos, s.Path(), "%s can skip loading although the time of a template file is not exactly the one recorded", fn.Name())
			}
		}
		if forgetful && !know(func(s *flow.State) bool { return s.IsNil(oldTimes) == 0 }) {
			c.VP("forgotten:"+name, q.pos, s.Path(), "%s can skip loading although the times were forgotten after an incomplete load", fn.Name())
		}
		if timesOf(s) != oldTimes {
			c.VP("forgot:"+name, q.pos, s.Path(), "%s records times without loading", fn.Name())
		}
	}
}

// sameEntry reports whether an iteration may belong to the run of the loop
// which led to a state: they agree on everything no loop changes.
func sameEntry(it, s *flow.State) bool {
	for f, v := range s.Facts {
		if w, ok := it.Facts[f]; ok && w != v && !f.Has(loopSyms) {
			return false
		}
	}
	return true
}
