package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C11", Title: "Concurrent requests never race on shared state",
		Rule:  "Lockset analysis. Starting from the HTTP handlers and everything they start asynchronously, the accesses of every function reached (through static calls, visitors by their concrete type, template functions, plugins, function values) to fields of the types a server shares between requests, to what the maps, slices, buffers and templates in them hold, and to package-level variables are collected with the locks held there, accesses through parameters being attributed at the call sites. Objects made on the way are not shared. If any such access writes, all accesses to that place must hold one lock in common, writes exclusively.",
		Trust: []string{"third-party libraries other than templates and buffers synchronise themselves", "locks are identified by the field or variable holding them"},
		Run:   runC11,
	})
}

// access is one access to a possibly shared place.
type access struct {
	loc    string
	write  bool
	locks  string // held locks, sorted, "W:" or "R:" prefixed
	killed string // locks of the caller given up before
	param  int    // the object belongs to this parameter; -1: shared
	pos    token.Pos
	fn     string
}

type raceCall struct {
	callee *ssa.Function
	args   []ssa.Value // aligned with the parameters; nil: shared
	async  bool
	once   string
}

type races struct {
	c       *C
	shared  map[*types.Named]bool
	acc     map[*ssa.Function]map[access]bool
	held    map[ssa.Instruction]map[string]bool
	killed  map[ssa.Instruction]map[string]bool
	calls   map[*ssa.Function]map[ssa.Instruction][]raceCall
	done    map[*ssa.Function]bool
	byName  map[string][]*ssa.Function
	all     []*ssa.Function
	async   map[*ssa.Function]bool
	net     map[*ssa.Function]map[string]bool // locks held when it returns
	active  map[*ssa.Function]bool
	vis     []*types.Interface
	tmpl    map[string][]*ssa.Function
	changed bool
	taken   map[*ssa.Function]bool // functions used as values
}

// addressTaken is the plain functions which are used as values somewhere.
func (r *races) addressTaken() map[*ssa.Function]bool {
	if r.taken != nil {
		return r.taken
	}
	r.taken = map[*ssa.Function]bool{}
	fs := append([]*ssa.Function{}, r.all...)
	for _, p := range r.c.P.SSA.AllPackages() {
		if p != nil && strings.HasPrefix(p.Pkg.Path(), mod) {
			if f := p.Func("init"); f != nil {
				fs = append(fs, f)
			}
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for k, op := range i.Operands(nil) {
					if _, ok := i.(ssa.CallInstruction); ok && k == 0 {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && inMod(g) {
						r.taken[g] = true
					}
				}
			}
		}
	}
	return r.taken
}

func inMod(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), mod)
	}
	// wrappers and bound methods
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), mod)
	}
	return false
}

func newRaces(c *C) *races {
	r := &races{c: c, shared: map[*types.Named]bool{}, acc: map[*ssa.Function]map[access]bool{}, held: map[ssa.Instruction]map[string]bool{}, killed: map[ssa.Instruction]map[string]bool{},
		calls: map[*ssa.Function]map[ssa.Instruction][]raceCall{}, done: map[*ssa.Function]bool{}, byName: map[string][]*ssa.Function{}, async: map[*ssa.Function]bool{}, net: map[*ssa.Function]map[string]bool{}, active: map[*ssa.Function]bool{}, tmpl: map[string][]*ssa.Function{}}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			r.all = append(r.all, f)
			if f.Signature.Recv() != nil {
				r.byName[f.Name()] = append(r.byName[f.Name()], f)
			}
		}
	}
	for _, p := range []string{mod, astPkg} {
		if vi := c.P.iface(p, "Visitor"); vi != nil {
			r.vis = append(r.vis, vi)
		}
	}
	return r
}

func runC11(c *C) {
	r := newRaces(c)
	roots := []*ssa.Function{}
	for _, f := range r.all {
		p := f.Signature.Params()
		if p.Len() == 2 && strings.HasSuffix(p.At(0).Type().String(), "net/http.ResponseWriter") && strings.HasSuffix(p.At(1).Type().String(), "net/http.Request") && f.Pkg != nil && f.Pkg.Pkg.Path() != mod {
			roots = append(roots, f)
			if rv := f.Signature.Recv(); rv != nil {
				r.share(rv.Type())
			}
			for _, fv := range f.FreeVars {
				r.share(fv.Type())
			}
		}
	}
	if len(roots) == 0 {
		c.V("anchor:ServeHTTP", token.NoPos, "nothing handles requests")
		return
	}
	for _, f := range roots {
		c.Obl("request handlers")
		r.visit(f)
	}
	for again := true; again; {
		again = false
		for f := range r.async {
			if !r.done[f] {
				again = true
				r.visit(f)
			}
		}
	}
	// attribute accesses to callers until nothing changes
	for r.changed = true; r.changed; {
		r.changed = false
		for f := range r.done {
			r.lift(f)
		}
	}
	places := map[string][]access{}
	take := func(f *ssa.Function) {
		for a := range r.acc[f] {
			places[a.loc] = append(places[a.loc], a)
		}
	}
	for _, f := range roots {
		take(f)
	}
	for f := range r.async {
		take(f)
	}
	names := []string{}
	for l := range places {
		names = append(names, l)
	}
	sort.Strings(names)
	for _, l := range names {
		as := places[l]
		writes := false
		for _, a := range as {
			writes = writes || a.write
		}
		c.Obl("shared places")
		if !writes {
			continue
		}
		c.Obl("shared places which are modified")
		var common map[string]bool
		sort.Slice(as, func(i, j int) bool { return as[i].pos < as[j].pos })
		var worst *access
		for i, a := range as {
			c.Obl("accesses to modified places")
			cur := map[string]bool{}
			for _, k := range strings.Fields(a.locks) {
				if strings.HasPrefix(k, "W:") || !a.write {
					cur[k[2:]] = true
				}
			}
			if common == nil {
				common = cur
			} else {
				for k := range common {
					if !cur[k] {
						delete(common, k)
					}
				}
			}
			if len(common) == 0 && (worst == nil || len(cur) == 0 && worst.locks != "") {
				worst = &as[i]
			}
		}
		if len(common) == 0 {
			how := "read"
			if worst.write {
				how = "written"
			}
			with := "without holding a lock"
			if worst.locks != "" {
				with = "holding only " + shortLocks(worst.locks)
			}
			c.V("race:"+short(l)+":"+worst.fn, worst.pos, "%s is %s in %s %s, while other requests may modify it", short(l), how, worst.fn, with)
		} else {
			ks := []string{}
			for k := range common {
				ks = append(ks, short(k))
			}
			sort.Strings(ks)
			c.Sample("%s: %d accesses under %s", short(l), len(as), strings.Join(ks, ", "))
		}
	}
	c.Need("shared places", 1)
	c.Need("request handlers", 1)
}

func shortLocks(s string) string {
	out := []string{}
	for _, k := range strings.Fields(s) {
		out = append(out, short(k[2:]))
	}
	return strings.Join(out, ", ")
}

// share marks the types reachable from a shared value.
func (r *races) share(t types.Type) {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), mod) || r.shared[u] {
			return
		}
		r.shared[u] = true
		r.share(u.Underlying())
	case *types.Alias:
		r.share(types.Unalias(u))
	case *types.Pointer:
		r.share(u.Elem())
	case *types.Slice:
		r.share(u.Elem())
	case *types.Array:
		r.share(u.Elem())
	case *types.Map:
		r.share(u.Elem())
		r.share(u.Key())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r.share(u.Field(i).Type())
		}
	}
}

// visit analyses a function and everything it calls.
func (r *races) visit(f *ssa.Function) {
	if r.done[f] || len(f.Blocks) == 0 || strings.HasSuffix(r.c.P.SSA.Fset.Position(f.Pos()).Filename, ".peg.go") && f.Parent() == nil {
		return
	}
	r.done[f] = true
	if r.c.funcs == nil {
		r.c.funcs = map[string]bool{}
	}
	r.c.funcs[f.String()] = true
	r.locksets(f)
	r.acc[f] = map[access]bool{}
	r.calls[f] = map[ssa.Instruction][]raceCall{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			r.accesses(f, i)
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cs := r.callees(f, ci)
			r.calls[f][i] = cs
			for _, k := range cs {
				if k.async {
					r.async[k.callee] = true
				}
				r.visit(k.callee)
			}
		}
	}
}

func (r *races) lockClass(ci ssa.CallInstruction) string {
	cc := ci.Common()
	v := cc.Value
	if !cc.IsInvoke() {
		v = cc.Args[0]
	}
	k := lockClass(v)
	if strings.Contains(k, ":") {
		return "" // a lock of this call only
	}
	return k
}

// locksets computes the locks held before every instruction of a function,
// relative to its entry, and returns those held when it returns.
func (r *races) locksets(f *ssa.Function) map[string]bool {
	if n, ok := r.net[f]; ok {
		return n
	}
	if r.active[f] {
		return nil
	}
	r.active[f] = true
	type st struct{ held, killed map[string]bool }
	in := map[*ssa.BasicBlock]*st{}
	cp := func(m map[string]bool) map[string]bool {
		n := map[string]bool{}
		for k := range m {
			n[k] = true
		}
		return n
	}
	in[f.Blocks[0]] = &st{map[string]bool{}, map[string]bool{}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	deferred := map[string]bool{}
	var out map[string]bool
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := &st{cp(in[b].held), cp(in[b].killed)}
		for _, i := range b.Instrs {
			r.held[i], r.killed[i] = cp(s.held), cp(s.killed)
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				if _, ok := i.(*ssa.Return); ok {
					if out == nil {
						out = cp(s.held)
					} else {
						for k := range out {
							if !s.held[k] {
								delete(out, k)
							}
						}
					}
				}
				continue
			}
			n := calleeName(i)
			_, isDefer := i.(*ssa.Defer)
			if _, isGo := i.(*ssa.Go); isGo {
				continue
			}
			switch {
			case releases(n) == "lock":
				if k := r.lockClass(ci); k != "" {
					m := "W:"
					if strings.HasSuffix(n, "RUnlock") {
						m = "R:"
					}
					if isDefer {
						deferred[m+k] = true
					} else if s.held[m+k] {
						delete(s.held, m+k)
					} else {
						s.killed[m+k] = true
					}
				}
			case acquires[n] == "lock":
				if k := r.lockClass(ci); k != "" && !isDefer {
					m := "W:"
					if strings.HasSuffix(n, "RLock") {
						m = "R:"
					}
					s.held[m+k] = true
				}
			case n == "(*sync.Once).Do" && !isDefer:
				if k := r.lockClass(ci); k != "" {
					s.held["R:once "+k] = true
					s.held["R:once_"+strings.ReplaceAll(k, " ", "_")] = true
					delete(s.held, "R:once "+k)
				}
			default:
				var g *ssa.Function
				if c := ci.Common().StaticCallee(); c != nil && inMod(c) && len(c.Blocks) > 0 {
					g = c
				}
				if g == nil {
					continue
				}
				net := r.locksets(g)
				if isDefer {
					for k := range r.releasedBy(g) {
						deferred[k] = true
					}
					continue
				}
				for k := range net {
					s.held[k] = true
				}
				for k := range r.releasedBy(g) {
					if !net[k] {
						if s.held[k] {
							delete(s.held, k)
						} else {
							s.killed[k] = true
						}
					}
				}
			}
		}
		for _, nb := range b.Succs {
			old := in[nb]
			if old == nil {
				in[nb] = &st{cp(s.held), cp(s.killed)}
				work = append(work, nb)
				continue
			}
			ch := false
			for k := range old.held {
				if !s.held[k] {
					delete(old.held, k)
					ch = true
				}
			}
			for k := range s.killed {
				if !old.killed[k] {
					old.killed[k] = true
					ch = true
				}
			}
			if ch {
				work = append(work, nb)
			}
		}
	}
	for k := range deferred {
		delete(out, k)
	}
	r.net[f] = out
	delete(r.active, f)
	return out
}

// releasedBy is the locks a function releases without having taken them.
func (r *races) releasedBy(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	r.locksets(f)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok || releases(calleeName(i)) != "lock" {
				continue
			}
			m := "W:"
			if strings.HasSuffix(calleeName(i), "RUnlock") {
				m = "R:"
			}
			if k := r.lockClass(ci); k != "" && !r.held[i][m+k] {
				out[m+k] = true
			}
		}
	}
	return out
}

// fresh reports whether a value is an object made by this call; param is the
// parameter the object is, or -1.
func (r *races) fresh(v ssa.Value, seen map[ssa.Value]bool) (fresh bool, param int) {
	if seen[v] {
		return true, -1
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		// a variable holding a pointer is followed where it is loaded
		return true, -1
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
		return true, -1
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return false, i
			}
		}
	case *ssa.FreeVar:
		return false, -1
	case *ssa.FieldAddr:
		return r.fresh(v.X, seen)
	case *ssa.IndexAddr:
		return r.fresh(v.X, seen)
	case *ssa.Slice:
		return r.fresh(v.X, seen)
	case *ssa.MakeInterface:
		return r.fresh(v.X, seen)
	case *ssa.ChangeType:
		return r.fresh(v.X, seen)
	case *ssa.ChangeInterface:
		return r.fresh(v.X, seen)
	case *ssa.TypeAssert:
		return r.fresh(v.X, seen)
	case *ssa.Phi:
		p := -2
		for _, e := range v.Edges {
			f, q := r.fresh(e, seen)
			if f {
				continue
			}
			if q < 0 || p >= 0 && p != q {
				return false, -1
			}
			p = q
		}
		return p == -2, max(p, -1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a local variable: what is stored in it
			if a, ok := v.X.(*ssa.Alloc); ok {
				p := -2
				for _, ref := range *a.Referrers() {
					switch s := ref.(type) {
					case *ssa.Store:
						if s.Addr != a {
							return false, -1
						}
						f, q := r.fresh(s.Val, seen)
						if f {
							continue
						}
						if q < 0 || p >= 0 && p != q {
							return false, -1
						}
						p = q
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
					default:
						return false, -1
					}
				}
				return p == -2, max(p, -1)
			}
		}
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g == nil || !inMod(g) || len(g.Blocks) == 0 {
			return false, -1
		}
		return r.makes(g, 0, seen), -1
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			if g := call.Common().StaticCallee(); g != nil && inMod(g) && len(g.Blocks) > 0 {
				return r.makes(g, v.Index, seen), -1
			}
		}
	}
	return false, -1
}

// makes reports whether a function's result is always made by it.
func (r *races) makes(g *ssa.Function, n int, seen map[ssa.Value]bool) bool {
	any := false
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= n {
			continue
		}
		any = true
		if f, _ := r.fresh(ret.Results[n], seen); !f {
			return false
		}
	}
	return any
}

func (r *races) add(f *ssa.Function, i ssa.Instruction, loc string, write bool, param int, pos token.Pos) {
	if !pos.IsValid() {
		pos = i.Pos()
	}
	a := access{loc: loc, write: write, locks: join(r.held[i]), killed: join(r.killed[i]), param: param, pos: pos, fn: shortFn(f)}
	if !r.acc[f][a] {
		r.acc[f][a] = true
		r.changed = true
	}
}

func shortFn(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name()
}

func join(m map[string]bool) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, strings.ReplaceAll(k, " ", "_"))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func syncType(t types.Type) bool {
	s := strings.TrimLeft(t.String(), "*[]")
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// accesses collects the accesses of one instruction.
func (r *races) accesses(f *ssa.Function, i ssa.Instruction) {
	if fa, ok := i.(*ssa.FieldAddr); ok {
		pt := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem())
		n, _ := pt.(*types.Named)
		if n == nil || !r.shared[n] {
			return
		}
		fv := structOf(pt).Field(fa.Field)
		if syncType(fv.Type()) {
			return
		}
		fresh, param := r.fresh(fa.X, map[ssa.Value]bool{})
		if fresh {
			return
		}
		loc := n.String() + "." + fv.Name()
		r.addr(f, fa, loc, param, map[ssa.Value]bool{})
		return
	}
	// package-level variables
	for _, op := range i.Operands(nil) {
		g, ok := (*op).(*ssa.Global)
		if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), mod) || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		et := g.Type().Underlying().(*types.Pointer).Elem()
		if syncType(et) {
			continue
		}
		r.addrUse(f, g, i, g.String(), -1, map[ssa.Value]bool{})
	}
}

// addr collects how the address of a place is used.
func (r *races) addr(f *ssa.Function, a ssa.Value, loc string, param int, seen map[ssa.Value]bool) {
	if seen[a] || a.Referrers() == nil {
		return
	}
	seen[a] = true
	for _, ref := range *a.Referrers() {
		r.addrUse(f, a, ref, loc, param, seen)
	}
}

func (r *races) addrUse(f *ssa.Function, a ssa.Value, ref ssa.Instruction, loc string, param int, seen map[ssa.Value]bool) {
	switch u := ref.(type) {
	case *ssa.Store:
		if u.Addr == a {
			r.add(f, u, loc, true, param, u.Pos())
		}
	case *ssa.UnOp:
		if u.Op == token.MUL {
			r.add(f, u, loc, false, param, u.Pos())
			r.content(f, u, loc+" contents", param, seen)
		}
	case *ssa.FieldAddr:
		pt := types.Unalias(u.X.Type().Underlying().(*types.Pointer).Elem())
		if n, ok := pt.(*types.Named); ok && r.shared[n] {
			return // a place of its own
		}
		if syncType(structOf(pt).Field(u.Field).Type()) {
			return
		}
		r.addr(f, u, loc, param, seen)
	case *ssa.IndexAddr:
		r.addr(f, u, loc, param, seen)
	case ssa.CallInstruction:
		g := u.Common().StaticCallee()
		if g != nil && inMod(g) {
			return // its own accesses count
		}
		if g != nil && len(u.Common().Args) > 0 && u.Common().Args[0] == a && g.Signature.Recv() != nil {
			r.add(f, u, loc, !readOnly(g), param, u.Pos())
		}
	}
}

// readOnly are methods of library types which do not modify them.
func readOnly(g *ssa.Function) bool {
	rt := strings.TrimPrefix(g.Signature.Recv().Type().String(), "*")
	switch rt {
	case "html/template.Template", "text/template.Template":
		switch g.Name() {
		case "Execute", "ExecuteTemplate", "Lookup", "Name", "Templates", "DefinedTemplates", "Clone":
			return true
		}
		return false
	case "bytes.Buffer", "strings.Builder", "math/rand.Rand", "container/list.List", "bufio.Reader", "bufio.Writer", "bufio.Scanner":
		switch g.Name() {
		case "Bytes", "String", "Len", "Cap":
			return true
		}
		return false
	}
	return true
}

// content collects how what a shared place holds is used.
func (r *races) content(f *ssa.Function, v ssa.Value, loc string, param int, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.MapUpdate:
			if u.Map == v {
				r.add(f, u, loc, true, param, u.Pos())
			}
		case *ssa.Lookup:
			if u.X == v {
				r.add(f, u, loc, false, param, u.Pos())
			}
		case *ssa.Range:
			r.add(f, u, loc, false, param, u.Pos())
		case *ssa.IndexAddr:
			if u.X == v {
				r.addrElem(f, u, loc, param, seen)
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.MakeInterface:
			r.content(f, u.(ssa.Value), loc, param, seen)
		case ssa.CallInstruction:
			cc := u.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					r.add(f, u, loc, true, param, u.Pos())
				case "append":
					if len(cc.Args) > 0 && cc.Args[0] == v {
						r.add(f, u, loc, true, param, u.Pos())
					}
				case "copy":
					r.add(f, u, loc, cc.Args[0] == v, param, u.Pos())
				case "len":
					if _, ok := v.Type().Underlying().(*types.Map); ok {
						r.add(f, u, loc, false, param, u.Pos())
					}
				}
				continue
			}
			g := cc.StaticCallee()
			if g == nil {
				continue
			}
			if !inMod(g) {
				if g.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v {
					if p, ok := v.Type().Underlying().(*types.Pointer); ok && !syncType(p.Elem()) {
						switch p.Elem().String() {
						case "html/template.Template", "text/template.Template", "bytes.Buffer", "strings.Builder", "math/rand.Rand", "container/list.List", "bufio.Reader", "bufio.Writer", "bufio.Scanner":
							r.add(f, u, loc, !readOnly(g), param, u.Pos())
						}
					}
				}
				if strings.HasPrefix(g.String(), "sort.") || strings.HasPrefix(g.String(), "slices.Sort") {
					r.add(f, u, loc, true, param, u.Pos())
				}
				continue
			}
			// handed to a function of the module: its uses, under these locks
			for k, a := range cc.Args {
				if a == v && k < len(g.Params) && len(g.Blocks) > 0 {
					switch v.Type().Underlying().(type) {
					case *types.Map, *types.Slice:
						sub := &races{c: r.c, shared: r.shared, acc: map[*ssa.Function]map[access]bool{g: {}}, held: r.held, killed: r.killed, net: r.net, active: r.active}
						r.locksets(g)
						sub.content(g, g.Params[k], loc, param, seen)
						for acc := range sub.acc[g] {
							r.lifted(f, u, acc, param)
						}
					}
				}
			}
		}
	}
}

func (r *races) addrElem(f *ssa.Function, a *ssa.IndexAddr, loc string, param int, seen map[ssa.Value]bool) {
	for _, ref := range *a.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if u.Addr == a {
				r.add(f, u, loc, true, param, u.Pos())
			}
		case *ssa.UnOp:
			r.add(f, u, loc, false, param, u.Pos())
		}
	}
}

// lifted attributes an access of a callee to its caller.
func (r *races) lifted(f *ssa.Function, at ssa.Instruction, a access, param int) {
	locks, killed := map[string]bool{}, map[string]bool{}
	gone := map[string]bool{}
	for _, k := range strings.Fields(a.killed) {
		gone[k] = true
	}
	for k := range r.held[at] {
		if k2 := strings.ReplaceAll(k, " ", "_"); !gone[k2] {
			locks[k2] = true
		}
	}
	for _, k := range strings.Fields(a.locks) {
		locks[k] = true
	}
	for k := range r.killed[at] {
		killed[k] = true
	}
	for k := range gone {
		killed[k] = true
	}
	n := access{loc: a.loc, write: a.write, locks: join(locks), killed: join(killed), param: param, pos: a.pos, fn: a.fn}
	if !r.acc[f][n] {
		r.acc[f][n] = true
		r.changed = true
	}
}

// lift attributes what a function's callees access to it.
func (r *races) lift(f *ssa.Function) {
	for at, cs := range r.calls[f] {
		for _, k := range cs {
			if k.async {
				continue
			}
			for a := range r.acc[k.callee] {
				param := -1
				if a.param >= 0 {
					if a.param < len(k.args) && k.args[a.param] != nil {
						fresh, p := r.fresh(k.args[a.param], map[ssa.Value]bool{})
						if fresh {
							continue
						}
						param = p
					}
				}
				if k.once != "" {
					b := a
					b.locks = strings.TrimSpace(b.locks + " W:once_" + strings.ReplaceAll(k.once, " ", "_"))
					r.lifted(f, at, b, param)
					continue
				}
				if _, isDefer := at.(*ssa.Defer); isDefer {
					// runs when the function returns: only locks released by
					// later deferred calls are certain
					b := a
					r.liftedAt(f, at, b, param)
					continue
				}
				r.lifted(f, at, a, param)
			}
		}
	}
}

// liftedAt is lifted for deferred calls: what is held both where the call is
// deferred and at every return.
func (r *races) liftedAt(f *ssa.Function, at ssa.Instruction, a access, param int) {
	held := map[string]bool{}
	for k := range r.held[at] {
		held[k] = true
	}
	for _, b := range f.Blocks {
		last := b.Instrs[len(b.Instrs)-1]
		if _, ok := last.(*ssa.Return); ok {
			for k := range held {
				if !r.held[last][k] {
					delete(held, k)
				}
			}
		}
	}
	old := r.held[at]
	r.held[at] = held
	r.lifted(f, at, a, param)
	r.held[at] = old
}

// concrete is the type of a value held in an interface.
func concrete(v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		if !types.IsInterface(v.Type()) {
			return v.Type()
		}
		return nil
	}
}

func (r *races) isVisitor(t types.Type) *types.Interface {
	for _, vi := range r.vis {
		if types.Identical(t.Underlying(), vi) {
			return vi
		}
	}
	return nil
}

// callees resolves a call.
func (r *races) callees(f *ssa.Function, ci ssa.CallInstruction) []raceCall {
	out := []raceCall{}
	cc := ci.Common()
	_, async := ci.(*ssa.Go)
	add := func(g *ssa.Function, args []ssa.Value) {
		if g != nil && inMod(g) {
			out = append(out, raceCall{callee: g, args: args, async: async})
		}
	}
	// a visit: the methods of the visitor given
	visited := func(args []ssa.Value) bool {
		for _, a := range args {
			vi := r.isVisitor(a.Type())
			if vi == nil {
				continue
			}
			if p, ok := a.(*ssa.Parameter); ok && p.Parent() == f && f.Name() == "Visit" {
				return true // where the visit started
			}
			ct := concrete(a)
			for i := 0; i < vi.NumMethods(); i++ {
				for _, g := range r.byName[vi.Method(i).Name()] {
					rt := g.Signature.Recv().Type()
					if ct != nil && !types.Identical(ct, rt) {
						if p, ok := ct.(*types.Pointer); !ok || !types.Identical(p.Elem(), rt) {
							continue
						}
					}
					if !types.Implements(rt, vi) && !types.Implements(types.NewPointer(rt), vi) {
						continue
					}
					x := a
					if mi, ok := a.(*ssa.MakeInterface); ok {
						x = mi.X
					}
					add(g, []ssa.Value{x, nil})
				}
			}
			return true
		}
		return false
	}
	if cc.IsInvoke() {
		if cc.Method.Name() == "Visit" && visited(cc.Args) {
			return out
		}
		if r.isVisitor(cc.Value.Type()) != nil && f.Name() == "Visit" {
			return nil // attributed where the visit started
		}
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, g := range r.byName[cc.Method.Name()] {
			rt := g.Signature.Recv().Type()
			if it != nil && (types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it)) {
				add(g, append([]ssa.Value{cc.Value}, cc.Args...))
			}
		}
		return out
	}
	s := cc.StaticCallee()
	if s == nil {
		if _, isB := cc.Value.(*ssa.Builtin); isB {
			return nil
		}
		for _, g := range r.all {
			if (g.Parent() != nil || r.addressTaken()[g]) && g.Signature.Recv() == nil && types.Identical(g.Signature, cc.Signature()) {
				add(g, nil)
			}
		}
		return out
	}
	if inMod(s) {
		add(s, cc.Args)
		if s.Name() == "Visit" && s.Signature.Recv() != nil {
			visited(cc.Args[1:])
		}
		return out
	}
	name := flow.FuncName(s)
	if name == "time.AfterFunc" {
		async = true
	}
	for _, a := range cc.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			a = mc.Fn
		}
		if g, ok := a.(*ssa.Function); ok && inMod(g) {
			add(g, nil)
			if name == "(*sync.Once).Do" {
				out[len(out)-1].once = r.lockClass(ci)
			}
		}
	}
	switch {
	case strings.HasSuffix(name, "template.Template).Execute") || strings.HasSuffix(name, "template.Template).ExecuteTemplate"):
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			path := p.Pkg.Pkg.Path()
			if _, ok := r.tmpl[path]; !ok {
				r.tmpl[path] = []*ssa.Function{}
				for _, e := range r.c.templateFuncs(path) {
					r.tmpl[path] = append(r.tmpl[path], e.Fn)
				}
			}
			for _, g := range r.tmpl[path] {
				add(g, nil)
			}
		}
		for _, g := range r.all {
			if g.Signature.Recv() != nil && token.IsExported(g.Name()) && g.Pkg != nil && g.Pkg.Pkg.Path() == mod && g.Name() != "Visit" {
				add(g, nil)
			}
		}
	case name == "(reflect.Value).Call":
		for _, g := range r.all {
			if g.Signature.Recv() != nil && token.IsExported(g.Name()) && typeName(g.Signature.Recv().Type()) == "Plugin" {
				add(g, nil)
			}
		}
	}
	return out
}
