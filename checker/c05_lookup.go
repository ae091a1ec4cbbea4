package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C05", Title: "Tag lookup considers every section of the document exactly once",
		Rule:  "The recursive search is cut into its recursive functions; each is summarised as a list made from: the section's own tags (kept exactly if the name is equal), the results for its children, and the result for its parent. Functions searching downwards must cover own tags and every child once; functions searching upwards must in addition cover the parent once, with the subtree they came from excluded there, whenever there is a parent. By induction over the tree every section is searched exactly once.",
		Trust: []string{"a section is a child of its parent exactly once (decided by C29)"},
		Run:   runC05,
	})
}

// recursive lists the functions of the module which can call themselves, without
// those which are just a part of another one: called in one place only, so
// that following them there is enough.
func (p *Prog) recursive() map[*ssa.Function]bool {
	calls := map[*ssa.Function][]*ssa.Function{}
	all := []*ssa.Function{}
	for _, pk := range p.scope() {
		for _, f := range p.funcsIn(pk) {
			all = append(all, f)
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil {
							calls[f] = append(calls[f], g)
						}
					}
					if mc, ok := i.(*ssa.MakeClosure); ok {
						calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range all {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		if walk(f) {
			out[f] = true
		}
	}
	sites := map[*ssa.Function]int{}
	for _, f := range all {
		for _, g := range calls[f] {
			sites[g]++
			if f == g {
				sites[g]++
			}
		}
	}
	for _, f := range all {
		if !out[f] || sites[f] != 1 || token.IsExported(f.Name()) || f.Parent() != nil {
			continue
		}
		// as long as every cycle is still cut somewhere
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function) bool
		walk = func(g *ssa.Function) bool {
			for _, h := range calls[g] {
				if h == f {
					return true
				}
				if !seen[h] && !out[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
			return false
		}
		if !walk(f) {
			delete(out, f)
		}
	}
	return out
}

type searchKey struct {
	key  string
	fn   *ssa.Function
	args []*flow.Term
	mem  map[*flow.Term]*flow.Term
	role string // "own", "down", "up"
	subj *flow.Term
	excl *flow.Term
	done bool
}

type search struct {
	c    *C
	rec  map[*ssa.Function]bool
	keys map[string]*searchKey
	todo []*searchKey
	name *flow.Term
	secT types.Type
	tagT types.Type
}

func (p *search) isSec(t types.Type) bool { return t != nil && types.Identical(t, p.secT) }
func (p *search) isTags(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), p.tagT)
}

func (p *search) finds(f *ssa.Function) bool {
	r := f.Signature.Results()
	return r.Len() == 1 && p.isTags(r.At(0).Type())
}

// symbolic call of a recursive search
func (p *search) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	f := ci.Callee
	if f != nil && f == p.c.P.method(mod, "Section", "Top") {
		return one(s, flow.PureResult(ci)), true
	}
	if f == nil || !p.rec[f] || !p.finds(f) {
		return nil, false
	}
	return p.symbolic(s, f, ci.Args, ci.Pos), true
}

func (p *search) symbolic(s *flow.State, f *ssa.Function, args []*flow.Term, pos token.Pos) []flow.Outcome {
	key := short(f.String())
	nargs := []*flow.Term{}
	secs := []*flow.Term{}
	var acc *flow.Term
	k := &searchKey{fn: f, mem: map[*flow.Term]*flow.Term{}}
	for i, a := range args {
		t := f.Params[i].Type()
		switch {
		case p.isSec(t) && s.IsNil(a) == 1:
			key += ",nil"
			nargs = append(nargs, flow.Nil())
			secs = append(secs, flow.Nil())
		case p.isSec(t):
			key += ",*"
			sym := flow.Sym("param", "section"+strconv.Itoa(i), t)
			nargs = append(nargs, sym)
			secs = append(secs, a)
			if k.subj == nil {
				k.subj = sym
			} else {
				k.excl = sym
			}
		case p.isTags(t):
			key += ",acc"
			acc = a
			nargs = append(nargs, flow.Sym("param", "acc", t))
		default:
			key += "," + strconv.Itoa(a.ID)
			nargs = append(nargs, a)
		}
	}
	k.key, k.args = key, nargs
	if p.keys[key] == nil {
		for a, v := range s.Mem {
			k.mem[a] = v
		}
		p.keys[key] = k
		p.todo = append(p.todo, k)
	}
	r := flow.Sym("pure", "search:"+key, f.Signature.Results().At(0).Type(), secs...)
	if acc != nil {
		r = flow.Cat(r.Typ, acc, flow.Sym("spread", "", nil, r))
	}
	return one(s, r)
}

func runC05(c *C) {
	searchTags(c, "FindTag", func(s *flow.State, name, other *flow.Term) int {
		return s.Decide(flow.Eq(other, name))
	})
}

// searchTags decides that a method of Section yields exactly the tags of the
// whole document for which matches is 1.
func searchTags(c *C, method string, matches func(s *flow.State, name, other *flow.Term) int) {
	fn := c.meth(mod, "Section", method)
	secN := c.P.named(mod, "Section")
	p := &search{c: c, rec: c.P.recursive(), keys: map[string]*searchKey{}, secT: types.NewPointer(secN), tagT: c.P.named(mod, "Tag")}
	recv := flow.Sym("param", "section0", p.secT)
	p.name = flow.Sym("param", "tagName", fn.Params[1].Type())
	root := &searchKey{key: method, fn: fn, args: []*flow.Term{recv, p.name}, subj: recv, mem: map[*flow.Term]*flow.Term{}}
	if p.rec[fn] {
		st := &flow.State{Mem: map[*flow.Term]*flow.Term{}, Facts: map[*flow.Term]bool{}}
		p.symbolic(st, fn, root.args, fn.Pos())
		root = p.todo[0]
		p.todo = nil
	}
	p.todo = append(p.todo, root)
	p.keys[root.key] = root
	type ref struct {
		from       *searchKey
		to         string
		secs       []*flow.Term
		kind       string // child, parent, self, top
		subj, excl *flow.Term
		pos        token.Pos
	}
	refs := []ref{}
	for len(p.todo) > 0 {
		k := p.todo[0]
		p.todo = p.todo[1:]
		if k.done {
			continue
		}
		k.done = true
		if k.subj == nil {
			c.V("subject:"+k.key, k.fn.Pos(), "%s has no section to search", k.fn.Name())
			continue
		}
		x, exits := c.run(&flow.Rule{Call: p.call, Keep: loopSyms}, k.fn, k.args, func(s *flow.State) {
			for a, v := range k.mem {
				s.Mem[a] = v
			}
		})
		ups, downs := 0, 0
		var downPath string
		var downPos token.Pos
		for _, e := range exits {
			c.Obl("search result paths")
			bad := func(f string, a ...any) { c.VP("search:"+k.fn.Name(), e.Pos, e.St.Path(), f, a...) }
			ps, ok := pieces(x, e.Res[0])
			if !ok {
				bad("%s returns %s, which is not made from tags of the section, its children and its parent", k.fn.Name(), e.Res[0])
				continue
			}
			var comps func(ps []piece, s *flow.State, subj, excl *flow.Term, depth int) (own, kids, up, del int)
			comps = func(ps []piece, s *flow.State, subj, excl *flow.Term, depth int) (own, kids, up, del int) {
				parent := flow.Field(subj, "Parent", p.secT)
				for _, pc := range ps {
					switch {
					case pc.One != nil:
						bad("%s returns the single tag %s", k.fn.Name(), pc.One)
					case pc.Spread != nil:
						t := pc.Spread
						if t.Op == "param" && t.Str == "acc" {
							continue
						}
						if t.Op != "pure" || len(t.Str) < 7 || t.Str[:7] != "search:" {
							bad("%s includes %s", k.fn.Name(), t)
							continue
						}
						r := ref{from: k, to: t.Str[7:], secs: t.Args, subj: subj, excl: excl, pos: e.Pos}
						switch target := t.Args[0]; {
						case target == subj:
							r.kind = "self"
							del++
						case target == parent:
							r.kind = "parent"
							up++
							if s.IsNil(parent) == 1 {
								continue
							}
						case isTop(x, s, target, subj):
							r.kind = "top"
							del++
						default:
							bad("%s also searches %s", k.fn.Name(), target)
							continue
						}
						refs = append(refs, r)
					case pc.Loop != nil:
						l := pc.Loop
						switch {
						case l.Over == flow.Field(subj, "Tags", nil):
							own++
							if l.left(s) {
								bad("%s can leave out tags of the section", k.fn.Name())
							}
							for _, it := range l.It {
								eq := matches(it.St, p.name, flow.Field(l.Elem, "Name", nil))
								switch {
								case it.Same:
									if eq != 0 {
										bad("a matching tag can be left out (%s)", it.St.Path())
									}
								case len(it.Parts) == 1 && it.Parts[0].One != nil && sameVal(it.St, it.Parts[0].One, l.Elem, p.tagT):
									if eq != 1 {
										bad("a tag which does not match can be included (%s)", it.St.Path())
									}
								default:
									bad("a tag is included changed or more than once")
								}
							}
						case l.Over == flow.Field(subj, "Children", nil):
							kids++
							if l.left(s) {
								bad("%s can leave out children", k.fn.Name())
							}
							for _, it := range l.It {
								isEx := 0
								if excl != nil {
									isEx = it.St.Decide(flow.Eq(l.Elem, excl))
								}
								if it.Same {
									if isEx != 1 && it.St.IsNil(l.Elem) != 1 {
										bad("a child can be left out of the search (%s)", it.St.Path())
									}
									continue
								}
								if excl != nil && isEx != 0 && it.St.IsNil(excl) != 1 {
									bad("the excluded child can be searched")
								}
								if len(it.Parts) == 1 && it.Parts[0].Spread != nil && len(it.Parts[0].Spread.Str) > 7 && it.Parts[0].Spread.Op == "pure" && it.Parts[0].Spread.Args[0] == l.Elem {
									t := it.Parts[0].Spread
									refs = append(refs, ref{from: k, to: t.Str[7:], secs: t.Args, kind: "child", subj: l.Elem, pos: e.Pos})
									continue
								}
								bad("a child is not searched exactly once")
							}
						case depth == 0 && len(l.It) > 0:
							// climbing loop
							cur, ex := climb(x, l, subj)
							if cur == nil {
								bad("%s includes a loop over %s", k.fn.Name(), termStr(l.Over))
								continue
							}
							if s.IsNil(cur) != 1 {
								bad("%s can stop climbing before the root", k.fn.Name())
							}
							for _, it := range l.It {
								o, kd, u, d := comps(it.Parts, it.St, cur, ex, 1)
								if d == 1 && o == 0 && kd == 0 && u == 0 {
									continue
								}
								if o != 1 || kd != 1 || u != 0 || d != 0 {
									bad("%s does not search each ancestor exactly once", k.fn.Name())
								}
							}
							own, kids, up = own+1, kids+1, up+1
						default:
							bad("%s includes a loop over %s", k.fn.Name(), termStr(l.Over))
						}
					}
				}
				return
			}
			own, kids, up, del := comps(ps, e.St, k.subj, k.excl, 0)
			if del == 1 && own == 0 && kids == 0 && up == 0 {
				k.role = "delegates"
				continue
			}
			if del > 0 {
				bad("%s searches sections more than once", k.fn.Name())
			}
			if own != 1 {
				bad("%s includes the section's own tags %d times", k.fn.Name(), own)
			}
			if kids != 1 && !(kids == 0 && e.St.Decide(flow.Eq(flow.Len(flow.Field(k.subj, "Children", nil)), flow.Int(0))) == 1) {
				bad("%s searches the children %d times", k.fn.Name(), kids)
			}
			if up > 1 {
				bad("%s searches the parent %d times", k.fn.Name(), up)
			}
			if up > 0 {
				ups++
			} else if e.St.IsNil(flow.Field(k.subj, "Parent", p.secT)) != 1 {
				downs++
				downPath, downPos = e.St.Path(), e.Pos
			}
		}
		if k.role == "" {
			k.role = "down"
			if ups > 0 {
				k.role = "up"
				if downs > 0 {
					c.VP("parent:"+k.fn.Name(), downPos, downPath, "%s can leave out the parent", k.fn.Name())
				}
			}
		}
		c.Obl("search functions")
		c.Sample("%s: %s", k.key, k.role)
	}
	// roles of delegating functions
	role := func(key string) string {
		for i := 0; i < 10; i++ {
			k := p.keys[key]
			if k == nil {
				return "?"
			}
			if k.role != "delegates" {
				return k.role
			}
			next := ""
			for _, r := range refs {
				if r.from == k {
					if r.kind == "top" {
						return "all"
					}
					next = r.to
				}
			}
			key = next
		}
		return "?"
	}
	for _, r := range refs {
		c.Obl("recursive searches")
		to := role(r.to)
		excl := flow.Nil()
		if len(r.secs) > 1 {
			excl = r.secs[1]
		}
		bad := func(f string, a ...any) { c.V("recursion:"+r.from.fn.Name()+":"+r.kind, r.pos, f, a...) }
		switch r.kind {
		case "child":
			if to != "down" {
				bad("searching a child also searches its parent, so sections are searched again")
			}
			if !excl.IsNil() {
				bad("searching a child leaves out %s", excl)
			}
		case "parent":
			if to != "up" {
				bad("searching the parent does not search further up")
			} else if excl != r.subj {
				bad("searching the parent does not exclude the section already searched (excludes %s)", excl)
			}
		case "top":
			if to != "down" && to != "up" {
				bad("searching the root does not search everything")
			}
			if !excl.IsNil() {
				bad("searching the root leaves out %s", excl)
			}
		case "self":
			want := flow.Nil()
			if r.excl != nil {
				want = r.excl
			}
			if excl != want {
				bad("searching the section leaves out %s", excl)
			}
			if r.from.role != "delegates" && to != "down" {
				bad("climbing searches upwards twice")
			}
		}
	}
	if rr := role(root.key); rr != "up" && rr != "all" {
		c.V("root", fn.Pos(), "looking up a tag only searches the section and what is below it (%s)", rr)
	}
	c.Need("search functions", 1)
	c.Need("search result paths", 1)
}

// isTop: the term is the root of the tree subj is in.
func isTop(x *flow.Exec, s *flow.State, t, subj *flow.Term) bool {
	if t.Op == "loopphi" || t.Op == "mphi" {
		r := x.Rec[t]
		if r == nil || len(r.Init) != 1 || !r.Init[subj] {
			return false
		}
		for st := range r.Steps {
			if st != flow.Field(t, "Parent", nil) {
				return false
			}
		}
		return s.IsNil(flow.Field(t, "Parent", nil)) == 1
	}
	return flow.CallName(t) == "(*"+mod+".Section).Top" && len(t.Args) == 1 && t.Args[0] == subj
}

// climb recognises a loop over a section and its ancestors; ex is the section
// visited before.
func climb(x *flow.Exec, l *loopList, subj *flow.Term) (cur, ex *flow.Term) {
	for t, key := range x.SymLoop {
		if key != l.Loop {
			continue
		}
		r := x.Rec[t]
		if r == nil || len(r.Init) != 1 || !r.Init[subj] || len(r.Steps) != 1 || !r.Steps[flow.Field(t, "Parent", nil)] {
			continue
		}
		cur = t
	}
	if cur == nil {
		return nil, nil
	}
	for t, key := range x.SymLoop {
		if key != l.Loop {
			continue
		}
		r := x.Rec[t]
		if r != nil && len(r.Init) == 1 && r.Init[flow.Nil()] && len(r.Steps) == 1 && r.Steps[cur] {
			ex = t
		}
	}
	return cur, ex
}
