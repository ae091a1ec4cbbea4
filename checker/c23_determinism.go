package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(checkDef{
		ID: "C23", Title: "The same input always produces the same output",
		Rule:  "Nondeterminism effect analysis. Every loop over a map, over an iterator of one, or over a list made in the order of one (traced through functions returning such lists) may only have effects which do not depend on the order: writing under the very key of the iteration, sets, sums and maxima, constants, and lists which are sorted before any other use; everything else it calls must be pure. What clocks, random numbers, process identifiers and addresses yield may only reach logging and comparisons of file times. Nothing reachable from loading and rendering runs concurrently with it other than logging or picks among channels, no package-level variable or long-lived object accumulates from one load to the next, and nothing is printed as an address.",
		Trust: []string{"the standard library is deterministic apart from the functions listed", "templates and JSON order maps by key, as documented"},
		Run:   runC23,
	})
}

type determinism struct {
	c       *C
	o       *owner
	r       *races
	all     []*ssa.Function
	sorting map[*ssa.Function]bool
	given   []map[*ssa.Parameter]bool
	pureM   map[*ssa.Function]int
	unord   map[*ssa.Function]bool // functions returning lists in map order
	nodup   map[string]bool
}

func runC23(c *C) {
	o := &owner{c: c, active: map[*ssa.Call]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	d := &determinism{c: c, o: o, r: newRaces(c), pureM: map[*ssa.Function]int{}, unord: map[*ssa.Function]bool{}}
	for _, pk := range c.P.scope() {
		if strings.Contains(pk.PkgPath, "/ci") {
			continue
		}
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			d.all = append(d.all, f)
			if c.funcs == nil {
				c.funcs = map[string]bool{}
			}
			c.funcs[short(f.String())] = true
		}
	}
	// lists made in map order: until nothing changes
	for again := true; again; {
		again = false
		n := len(d.unord)
		c.mute = true
		for _, f := range d.all {
			d.order(f)
		}
		c.mute = false
		again = len(d.unord) != n
	}
	for _, f := range d.all {
		if d.generated(f) {
			continue // the parser and the embedded files
		}
		d.order(f)
		d.sources(f)
		d.concurrency(f)
		d.accumulates(f)
	}
	c.Obl("packages")
	c.Need("functions examined", 1)
	c.Need("loops in no particular order", 1)
	c.Need("uses of clocks and the like", 1)
}

func (d *determinism) generated(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	n := d.c.P.Fset.Position(f.Pos()).Filename
	if strings.HasSuffix(n, ".peg.go") {
		return !actionMethod(f)
	}
	return strings.HasSuffix(n, "bindata.go")
}

// actionMethod: a grammar's own code.
func actionMethod(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	return rv != nil && typeName(rv.Type()) == "current"
}

// order examines everything a function does in the order of a map.
func (d *determinism) order(f *ssa.Function) {
	d.c.Obl("functions examined")
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Range:
				if _, ok := u.X.Type().Underlying().(*types.Map); !ok {
					continue
				}
				for _, ref := range *u.Referrers() {
					nx, ok := ref.(*ssa.Next)
					if !ok {
						continue
					}
					var key ssa.Value
					for _, r := range *nx.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
							key = e
						}
					}
					d.loop(f, nx.Block(), key, u.Pos())
				}
			case *ssa.Call:
				g := u.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch n := libName(g); {
				case n == "maps.Keys" || n == "maps.Values" || n == "maps.All":
					d.iterator(f, u)
				case n == "(reflect.Value).MapKeys":
					d.list(f, u, u)
				case n == "(*os.File).Readdir" || n == "(*os.File).Readdirnames" || n == "(*os.File).ReadDir":
					for _, ref := range *u.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
							d.list(f, e, u)
						}
					}
				case n == "(reflect.Value).MapRange" || n == "(*sync.Map).Range":
					d.bad(f, "maporder", u.Pos(), "%s goes through a map in no particular order", shortFn(f))
				case d.unord[g]:
					for k := 0; k < g.Signature.Results().Len(); k++ {
						if _, ok := g.Signature.Results().At(k).Type().Underlying().(*types.Slice); !ok {
							continue
						}
						if g.Signature.Results().Len() == 1 {
							d.list(f, u, u)
							continue
						}
						for _, ref := range *u.Referrers() {
							if e, ok := ref.(*ssa.Extract); ok && e.Index == k {
								d.list(f, e, u)
							}
						}
					}
				}
			}
		}
	}
}

func (d *determinism) bad(f *ssa.Function, key string, pos token.Pos, format string, a ...any) {
	d.c.V(key+":"+shortFn(f), pos, format, a...)
}

// iterator examines the uses of a map's iterator.
func (d *determinism) iterator(f *ssa.Function, it ssa.Value) {
	for _, ref := range *it.Referrers() {
		call, ok := ref.(*ssa.Call)
		if !ok {
			if _, ok := ref.(*ssa.DebugRef); !ok {
				d.bad(f, "maporder", ref.Pos(), "%s uses the iterator of a map, which has no particular order", shortFn(f))
			}
			continue
		}
		if call.Call.Value == it { // range over it
			if mc, ok := call.Call.Args[0].(*ssa.MakeClosure); ok {
				d.body(f, mc.Fn.(*ssa.Function), call)
			} else if g, ok := call.Call.Args[0].(*ssa.Function); ok {
				d.body(f, g, call)
			}
			continue
		}
		g := call.Call.StaticCallee()
		n := ""
		if g != nil {
			n = libName(g)
		}
		switch n {
		case "slices.Sorted", "slices.SortedFunc", "maps.Collect", "maps.Insert":
		case "slices.Collect":
			d.list(f, call, call)
		default:
			d.bad(f, "maporder", call.Pos(), "%s uses the iterator of a map, which has no particular order", shortFn(f))
		}
	}
}

// sorts: the call puts the list in an order of its own.
func (d *determinism) sorts(i ssa.Instruction, v ssa.Value) bool {
	call, ok := i.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) == 0 {
		return false
	}
	if d.sortsFirst(i, v) {
		return true
	}
	a := call.Call.Args[0]
	for {
		switch x := a.(type) {
		case *ssa.MakeInterface:
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		}
		break
	}
	if a != v {
		return false
	}
	switch libName(call.Call.StaticCallee()) {
	case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Sort", "sort.Stable":
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return d.total(call.Call.Args[1])
	}
	return false
}

// sortsFirst: a function of the module does nothing with a list it is given
// before sorting it.
func (d *determinism) sortsFirst(i ssa.Instruction, v ssa.Value) bool {
	call, ok := i.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return false
	}
	g := call.Call.StaticCallee()
	if !inMod(g) || len(g.Blocks) == 0 || d.sorting[g] {
		return false
	}
	var p *ssa.Parameter
	for k, a := range call.Call.Args {
		if a == v && k < len(g.Params) {
			p = g.Params[k]
		}
	}
	if p == nil || p.Referrers() == nil {
		return false
	}
	if d.sorting == nil {
		d.sorting = map[*ssa.Function]bool{}
	}
	d.sorting[g] = true
	defer delete(d.sorting, g)
	var sort ssa.Instruction
	for _, ref := range *p.Referrers() {
		u, ok := ref.(ssa.Value)
		if !ok {
			continue
		}
		if d.sorts(ref, p) {
			sort = ref
		}
		if mi, ok := u.(*ssa.MakeInterface); ok {
			for _, r := range *mi.Referrers() {
				if d.sorts(r, p) {
					sort = r
				}
			}
		}
	}
	if sort == nil {
		return false
	}
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !dominates(sort, ret) {
			return false
		}
	}
	for _, ref := range *p.Referrers() {
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		if mi, ok := ref.(*ssa.MakeInterface); ok && len(*mi.Referrers()) == 1 && (*mi.Referrers())[0] == sort {
			continue
		}
		if !dominates(sort, ref) {
			return false
		}
	}
	return true
}

// total: the comparison compares the elements themselves.
func (d *determinism) total(v ssa.Value) bool {
	var g *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		g = x.Fn.(*ssa.Function)
	case *ssa.Function:
		g = x
	}
	if g == nil {
		return false
	}
	if len(g.Blocks) == 0 || !inMod(g) {
		return libName(g) == "strings.Compare" || libName(g) == "cmp.Compare"
	}
	elem := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Parameter); ok {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		_, ok = ia.Index.(*ssa.Parameter)
		return ok
	}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch x := ret.Results[0].(type) {
		case *ssa.BinOp:
			if !elem(x.X) || !elem(x.Y) {
				return false
			}
		case *ssa.Call:
			if len(x.Call.Args) != 2 || !elem(x.Call.Args[0]) || !elem(x.Call.Args[1]) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// list examines the uses of a list in no particular order.
func (d *determinism) list(f *ssa.Function, v ssa.Value, at ssa.Instruction) {
	vals := map[ssa.Value]bool{}
	uses := []ssa.Instruction{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if vals[v] || v.Referrers() == nil {
			return
		}
		vals[v] = true
		for _, ref := range *v.Referrers() {
			switch u := ref.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Slice:
				walk(u.(ssa.Value))
			case *ssa.Store:
				if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
					for _, r := range *al.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok {
							walk(ld)
						}
					}
					continue
				}
				uses = append(uses, ref)
			case *ssa.DebugRef:
			case *ssa.Call:
				// extended with more of the same
				if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && u.Call.Args[0] == v {
					walk(u)
					continue
				}
				if g := u.Call.StaticCallee(); g != nil && inMod(g) {
					for k, a := range u.Call.Args {
						if a == v && addsTo(g, k) != "" {
							walk(u)
						}
					}
					if vals[u] {
						continue
					}
				}
				uses = append(uses, ref)
			default:
				uses = append(uses, ref)
			}
		}
	}
	walk(v)
	sorted := []ssa.Instruction{}
	for _, u := range uses {
		for x := range vals {
			if d.sorts(u, x) {
				sorted = append(sorted, u)
				break
			}
		}
	}
	for _, u := range uses {
		after := false
		for _, s := range sorted {
			after = after || s == u || dominates(s, u)
		}
		if after {
			continue
		}
		switch x := u.(type) {
		case *ssa.Return:
			d.unord[f] = true
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
		case *ssa.IndexAddr:
			if _, ok := x.Index.(*ssa.Const); !ok {
				// the loop over it
				if h := loopOf(x.Block()); h != nil {
					var key ssa.Value
					for _, r := range *x.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok {
							key = ld
						}
					}
					d.loop(f, h, key, x.Pos())
					continue
				}
			}
		}
		d.bad(f, "unsorted", u.Pos(), "%s uses a list made in the order of a map, which is not sorted before", shortFn(f))
	}
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// loopOf is the header of the innermost loop around a block.
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && reaches(b, p, h) {
				return h
			}
		}
	}
	return nil
}

func reaches(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != avoid && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// body examines the body of a loop over an iterator.
func (d *determinism) body(f, g *ssa.Function, at ssa.Instruction) {
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		region[b] = true
	}
	var key ssa.Value
	if len(g.Params) > 0 {
		key = g.Params[0]
	}
	d.region(f, region, nil, key, at.Pos())
}

// loop examines the loop with this header.
func (d *determinism) loop(f *ssa.Function, h *ssa.BasicBlock, key ssa.Value, pos token.Pos) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	_ = iff
	entry := h.Succs[0]
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if entry == b || entry.Dominates(b) {
			region[b] = true
		}
	}
	d.region(f, region, h, key, pos)
}

func (d *determinism) region(f *ssa.Function, region map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, key ssa.Value, pos token.Pos) {
	c := d.c
	c.Obl("loops in no particular order")
	c.Sample("%s: a loop in no particular order (%s)", short(f.String()), c.P.pos(pos))
	name := shortFn(f)
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && i.Block() != nil && region[i.Block()]
	}
	isPhi := func(v ssa.Value) bool {
		p, ok := v.(*ssa.Phi)
		return ok && h != nil && p.Block() == h
	}
	// invariant: the same in every iteration
	var invariant func(v ssa.Value, seen map[ssa.Value]bool) bool
	invariant = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v == key || isPhi(v) {
			return false
		}
		if p, ok := v.(*ssa.Parameter); ok {
			return !region[p.Parent().Blocks[0]] || h != nil
		}
		if i, ok := v.(ssa.Instruction); ok && h != nil && i.Block() == h {
			return false
		}
		if !inside(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return invariant(x.X, seen)
		case *ssa.ChangeType:
			return invariant(x.X, seen)
		case *ssa.ChangeInterface:
			return invariant(x.X, seen)
		case *ssa.Convert:
			return invariant(x.X, seen)
		case *ssa.BinOp:
			return invariant(x.X, seen) && invariant(x.Y, seen)
		case *ssa.Alloc:
			return false
		}
		return false
	}
	inv := func(v ssa.Value) bool { return invariant(v, map[ssa.Value]bool{}) }
	sameKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.UnOp:
				// the iteration's variable
				if al, ok := x.X.(*ssa.Alloc); ok && region[al.Block()] {
					for _, ref := range *al.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
							v = st.Val
						}
					}
					if v != ssa.Value(x) {
						continue
					}
				}
			}
			return key != nil && v == key
		}
	}
	// accum classifies how a value carried from one iteration to the next
	// changes: "" if in a way which depends on the order
	type how struct {
		kind   string
		consts map[ssa.Value]bool
	}
	var accum func(v ssa.Value, prev func(ssa.Value) bool, at *ssa.BasicBlock, hw *how, seen map[ssa.Value]bool) bool
	accum = func(v ssa.Value, prev func(ssa.Value) bool, at *ssa.BasicBlock, hw *how, seen map[ssa.Value]bool) bool {
		if seen[v] || prev(v) {
			return true
		}
		seen[v] = true
		set := func(k string) bool {
			if hw.kind != "" && hw.kind != k {
				return false
			}
			hw.kind = k
			return true
		}
		if inv(v) {
			if cst, ok := v.(*ssa.Const); ok {
				for w := range hw.consts {
					if x, ok := w.(*ssa.Const); ok && x.Value == nil && cst.Value == nil || ok && x.Value != nil && cst.Value != nil && constant.Compare(x.Value, token.EQL, cst.Value) {
						return set("set")
					}
				}
			}
			hw.consts[v] = true
			return len(hw.consts) == 1 && set("set")
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for k, e := range x.Edges {
				if !accum(e, prev, x.Block().Preds[k], hw, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if accum(x.X, prev, at, hw, seen) && !dependsOn(x.Y, prev) || x.Op != token.SUB && accum(x.Y, prev, at, hw, seen) && !dependsOn(x.X, prev) {
						return set("sum")
					}
				}
			}
			return false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append":
					return accum(x.Call.Args[0], prev, at, hw, seen) && set("list")
				case "max", "min":
					n := 0
					for _, a := range x.Call.Args {
						if prev(a) {
							n++
						}
					}
					return n == 1 && set(b.Name())
				}
			}
			if g := x.Call.StaticCallee(); g != nil && inMod(g) {
				for k, a := range x.Call.Args {
					if kind := addsTo(g, k); kind != "" && accum(a, prev, at, hw, seen) {
						return kind == "same" || set(kind)
					}
				}
			}
		}
		// chosen because it is larger or smaller than what there was
		if at != nil && bounded(v, prev, at, region) {
			return set("extreme")
		}
		return false
	}
	if h != nil {
		for _, i := range h.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			hw := &how{consts: map[ssa.Value]bool{}}
			ok = true
			index := false
			for k, e := range phi.Edges {
				if region[h.Preds[k]] || h.Preds[k] == h || h.Dominates(h.Preds[k]) {
					// the loop's own counter
					if bo, isB := e.(*ssa.BinOp); isB && bo.Block() == h {
						index = true
						continue
					}
					ok = ok && accum(e, func(v ssa.Value) bool { return v == ssa.Value(phi) }, h.Preds[k], hw, map[ssa.Value]bool{})
				}
			}
			if index {
				continue
			}
			c.Obl("what loops in no particular order carry on")
			if !ok {
				d.bad(f, "carried", phi.Pos(), "what %s computes in a loop in no particular order (%s) depends on that order", name, phi.Comment)
				continue
			}
			if hw.kind == "list" {
				d.list(f, phi, phi)
			}
		}
	}
	for b := range region {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Store:
				if d.iterationLocal(u.Addr, region) {
					continue
				}
				c.Obl("effects in no particular order")
				if inv(u.Val) {
					if _, isC := u.Val.(*ssa.Const); isC || f.Parent() == nil {
						continue
					}
				}
				hw := &how{consts: map[ssa.Value]bool{}}
				prev := func(v ssa.Value) bool {
					ld, ok := v.(*ssa.UnOp)
					return ok && ld.Op == token.MUL && sameAddr(ld.X, u.Addr)
				}
				if accum(u.Val, prev, b, hw, map[ssa.Value]bool{}) && (hw.kind != "set") {
					if hw.kind == "list" {
						d.cell(f, u, region)
					}
					continue
				}
				if sameKey(indexOf(u.Addr)) {
					continue
				}
				d.bad(f, "stored", u.Pos(), "%s stores what depends on the order of a map", name)
			case *ssa.MapUpdate:
				if inside(u.Map) {
					continue
				}
				c.Obl("effects in no particular order")
				if sameKey(u.Key) || inv(u.Value) {
					continue
				}
				hw := &how{consts: map[ssa.Value]bool{}}
				prev := func(v ssa.Value) bool {
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					return ok && lk.X == u.Map && lk.Index == u.Key
				}
				if accum(u.Value, prev, b, hw, map[ssa.Value]bool{}) && hw.kind == "sum" {
					continue
				}
				d.bad(f, "mapped", u.Pos(), "%s puts values into a map in the order of another, where they may replace each other", name)
			case *ssa.Return:
				c.Obl("effects in no particular order")
				for _, r := range u.Results {
					if !inv(r) && r.Type().String() != "error" && h != nil {
						d.bad(f, "returned", u.Pos(), "%s returns what it comes across first in a map", name)
					}
				}
			case *ssa.Send:
				d.bad(f, "sent", u.Pos(), "%s sends values in the order of a map", name)
			case *ssa.Go:
				d.bad(f, "sent", u.Pos(), "%s starts goroutines in the order of a map", name)
			case ssa.CallInstruction:
				c.Obl("effects in no particular order")
				if why := d.impure(u, region); why != "" {
					d.bad(f, "called", u.Pos(), "%s calls %s in the order of a map", name, why)
				}
			}
		}
	}
	// values picked by leaving the loop
	for _, b := range f.Blocks {
		if region[b] || h == nil {
			continue
		}
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok || b == h {
				continue
			}
			chosen := map[ssa.Value]bool{}
			for k, e := range phi.Edges {
				if region[b.Preds[k]] {
					if !inv(e) && !isPhi(e) && e.Type().String() != "error" {
						d.bad(f, "picked", phi.Pos(), "%s picks what it comes across first in a map", name)
					}
					chosen[e] = true
				}
			}
		}
	}
}

// addsTo tells how a helper continues what it is given as its kth argument: a
// list it adds to or a number it adds up ("same" if it returns what it is
// given), empty if in another way.
func addsTo(g *ssa.Function, k int) string {
	if k >= len(g.Params) || g.Signature.Results().Len() != 1 || len(g.FreeVars) > 0 {
		return ""
	}
	given := ssa.Value(g.Params[k])
	isGiven := func(v ssa.Value) bool { return v == given }
	kind := "same"
	set := func(w string) bool {
		if kind != "same" && kind != w {
			return false
		}
		kind = w
		return true
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == given || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return from(x.Call.Args[0]) && set("list")
			}
		case *ssa.BinOp:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.Op == token.ADD {
				return (from(x.X) && !dependsOn(x.Y, isGiven) || from(x.Y) && !dependsOn(x.X, isGiven)) && set("sum")
			}
		}
		return false
	}
	for _, r := range *given.Referrers() {
		switch u := r.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			if _, ok := u.Call.Value.(*ssa.Builtin); !ok {
				return ""
			}
		default:
			return ""
		}
	}
	// what is done depends on nothing else it is given
	n := 0
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Return:
				n++
				if !from(u.Results[0]) {
					return ""
				}
			case *ssa.If:
				if dependsOn(u.Cond, isGiven) {
					return ""
				}
			}
		}
	}
	if n == 0 {
		return ""
	}
	return kind
}

// dependsOn: the value is computed from what was carried over.
func dependsOn(v ssa.Value, prev func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if prev(v) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range i.Operands(nil) {
			if walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// bounded: the value replaces what there was as it is larger or smaller.
func bounded(v ssa.Value, prev func(ssa.Value) bool, at *ssa.BasicBlock, region map[*ssa.BasicBlock]bool) bool {
	for b := at; b != nil && region[b]; b = b.Idom() {
		id := b.Idom()
		if id == nil {
			break
		}
		for _, p := range []*ssa.BasicBlock{b, id} {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if bo.X == v && prev(bo.Y) || bo.Y == v && prev(bo.X) {
					return true
				}
				if sameExpr(bo.X, v) && prev(bo.Y) || sameExpr(bo.Y, v) && prev(bo.X) {
					return true
				}
			}
		}
	}
	return false
}

func sameExpr(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && bx.Name() == by.Name() && len(x.Call.Args) == 1 && x.Call.Args[0] == y.Call.Args[0]
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && (sameAddr(x.X, y.X) || sameLoad(x.X, y.X))
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

func indexOf(a ssa.Value) ssa.Value {
	if ia, ok := a.(*ssa.IndexAddr); ok {
		return ia.Index
	}
	return nil
}

// iterationLocal: the address belongs to a variable of this iteration.
func (d *determinism) iterationLocal(a ssa.Value, region map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return region[x.Block()]
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.MakeSlice:
			return region[x.Block()]
		default:
			return false
		}
	}
}

// cell examines a variable in memory collecting in no particular order.
func (d *determinism) cell(f *ssa.Function, st *ssa.Store, region map[*ssa.BasicBlock]bool) {
	al, path := d.o.local(st.Addr)
	if al == nil || len(path) > 0 {
		d.bad(f, "collected", st.Pos(), "%s collects in the order of a map", shortFn(f))
		return
	}
	sorted := []ssa.Instruction{}
	loads := []*ssa.UnOp{}
	for _, ref := range *al.Referrers() {
		ld, ok := ref.(*ssa.UnOp)
		if !ok || region[ld.Block()] {
			continue
		}
		s := false
		for _, u := range *ld.Referrers() {
			if d.sorts(u, ld) {
				sorted = append(sorted, u)
				s = true
			}
			if mi, ok := u.(*ssa.MakeInterface); ok {
				for _, u := range *mi.Referrers() {
					if d.sorts(u, ld) {
						sorted = append(sorted, u)
						s = true
					}
				}
			}
		}
		if !s {
			loads = append(loads, ld)
		}
	}
	for _, ld := range loads {
		ok := false
		for _, s := range sorted {
			ok = ok || dominates(s, ld)
		}
		if !ok {
			d.list(f, ld, ld)
		}
	}
}

// purePackages have functions which only compute.
var purePackages = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "bytes": true, "unicode": true, "unicode/utf8": true,
	"errors": true, "math": true, "html": true, "net/url": true, "cmp": true, "regexp": true, "reflect": true, "slices": true, "maps": true,
	"mime": true, "encoding/json": true,
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"os.Stat": true, "os.ReadFile": true, "os.Lstat": true,
}

func libPkg(g *ssa.Function) string {
	if g.Origin() != nil {
		g = g.Origin()
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// logging: the call only reports to whoever runs the program.
func logging(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if g := cc.StaticCallee(); g != nil {
		p := libPkg(g)
		return p == "log" || p == "log/slog" || strings.Contains(p, "logrus")
	}
	if cc.IsInvoke() && cc.Method.Pkg() != nil {
		return strings.Contains(cc.Method.Pkg().Path(), "logrus")
	}
	return false
}

// impure names what a call does which depends on the order; "" if nothing.
func (d *determinism) impure(ci ssa.CallInstruction, region map[*ssa.BasicBlock]bool) string {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			return "print"
		case "copy", "clear":
			if !d.iterationLocal(cc.Args[0], region) {
				return b.Name()
			}
		}
		return ""
	}
	if logging(ci) {
		return ""
	}
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "String", "Error", "IsFlow", "Len", "Name", "ModTime", "Size", "Mode", "IsDir", "Kind":
			return ""
		case "Visit":
			if len(cc.Args) == 1 {
				if d.fresh(cc.Args[0], region) {
					return ""
				}
			}
		}
		return cc.Method.Name()
	}
	g := cc.StaticCallee()
	if g == nil {
		return "a function it was given"
	}
	if inMod(g) && len(g.Blocks) > 0 {
		if d.pure(g) || d.generated(g) && !strings.HasPrefix(g.Name(), "Restore") {
			return ""
		}
		// a method changing what this iteration made
		if len(cc.Args) > 0 && g.Signature.Recv() != nil && region != nil {
			if d.fresh(cc.Args[0], region) {
				return ""
			}
		}
		// a part which only changes what was made here
		given := map[*ssa.Parameter]bool{}
		for i, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Basic); !ok && i < len(g.Params) && d.fresh(a, region) {
				given[g.Params[i]] = true
			}
		}
		if len(given) > 0 && len(d.given) < 6 && d.pureGiven(g, given) {
			return ""
		}
		return shortFn(g)
	}
	n := libName(g)
	if purePackages[libPkg(g)] && !inPlace[n] || pureFuncs[n] {
		return ""
	}
	if strings.Contains(n, "template.Template)") || strings.Contains(n, "template.Must") || strings.Contains(n, "template.New") {
		if strings.HasSuffix(n, ".Execute") || strings.HasSuffix(n, ".ExecuteTemplate") {
			return n
		}
		return "" // templates are kept by name
	}
	if inPlace[n] || strings.HasPrefix(n, "sort.") {
		if d.iterationLocal(cc.Args[0], region) || region == nil {
			return ""
		}
		return n
	}
	switch {
	case strings.HasPrefix(n, "(time."), strings.HasPrefix(n, "(reflect."), n == "os.Getenv":
		return ""
	case strings.HasPrefix(n, "(*strings.Builder)"), strings.HasPrefix(n, "(*bytes.Buffer)"):
		if len(cc.Args) > 0 && (strings.HasSuffix(n, ".String") || strings.HasSuffix(n, ".Len") || d.iterationLocal(cc.Args[0], region)) {
			return ""
		}
	case strings.HasPrefix(n, "(*bytes.Reader)"), strings.HasPrefix(n, "compress/"), strings.HasPrefix(n, "(*compress/"), strings.HasPrefix(n, "io.Copy"), strings.HasPrefix(n, "io.ReadAll"), n == "bytes.NewBuffer":
		return ""
	}
	return n
}

// fresh: the object was made in this iteration, or by this call.
func (d *determinism) fresh(v ssa.Value, region map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return d.fresh(x.X, region)
	case *ssa.Alloc:
		return region == nil || region[x.Block()]
	case *ssa.Parameter:
		return region == nil && len(d.given) > 0 && d.given[len(d.given)-1][x]
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !inMod(g) || len(g.Blocks) == 0 || g.Signature.Results().Len() != 1 || region != nil && !region[x.Block()] {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if al, ok := ret.Results[0].(*ssa.Alloc); !ok || !al.Heap {
					return false
				}
			}
		}
		return d.pure(g)
	}
	return false
}

// pureGiven: the function only computes its results and changes some of what
// it is given.
func (d *determinism) pureGiven(g *ssa.Function, given map[*ssa.Parameter]bool) bool {
	d.given = append(d.given, given)
	defer func() { d.given = d.given[:len(d.given)-1] }()
	return d.computes(g, given)
}

// pure: the function only computes its results.
func (d *determinism) pure(g *ssa.Function) bool {
	if v, ok := d.pureM[g]; ok {
		return v >= 0
	}
	d.pureM[g] = 0
	d.given = append(d.given, nil)
	ok := d.computes(g, nil)
	d.given = d.given[:len(d.given)-1]
	if !ok {
		d.pureM[g] = -1
	} else {
		d.pureM[g] = 1
	}
	return ok
}

func (d *determinism) computes(g *ssa.Function, given map[*ssa.Parameter]bool) bool {
	ok := true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Store:
				a := u.Addr
				for {
					if fa, isF := a.(*ssa.FieldAddr); isF {
						a = fa.X
						continue
					}
					if ia, isI := a.(*ssa.IndexAddr); isI {
						a = ia.X
						continue
					}
					break
				}
				switch x := a.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.Slice:
				case *ssa.Parameter:
					ok = ok && given[x]
				default:
					ok = false
				}
			case *ssa.MapUpdate:
				if _, mk := u.Map.(*ssa.MakeMap); !mk {
					r := d.o.owned(u.Map, ownElems, map[ownKey]bool{})
					if r.bad != nil || len(r.params) > 0 || len(r.slots) > 0 {
						ok = false
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				ok = false
			case ssa.CallInstruction:
				if n := calleeName(i); strings.HasPrefix(n, "(*bytes.Buffer)") || strings.HasPrefix(n, "(*strings.Builder)") {
					if al, _ := d.o.local(u.Common().Args[0]); al != nil {
						continue
					}
				}
				if d.impure(u, nil) != "" {
					ok = false
				}
			}
		}
	}
	return ok
}

// volatile are library functions yielding something else every time.
func volatile(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "runtime.Stack",
		"(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		return true
	}
	for _, p := range []string{"math/rand.", "(*math/rand.", "math/rand/v2.", "(*math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*hash/maphash."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// sources examines what clocks, random numbers and addresses are used for.
func (d *determinism) sources(f *ssa.Function) {
	c := d.c
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Convert:
				if bt, ok := u.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
					if xt, ok := u.X.Type().Underlying().(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
						d.bad(f, "address", u.Pos(), "%s uses an address as a number", shortFn(f))
					}
				}
			case *ssa.Call:
				g := u.Common().StaticCallee()
				if g == nil {
					continue
				}
				n := libName(g)
				if strings.HasPrefix(n, "fmt.") {
					d.printed(f, u)
				}
				if volatile(n) {
					c.Obl("uses of clocks and the like")
					d.volatileUse(f, u, n, map[ssa.Value]bool{})
				}
			}
		}
	}
}

// volatileUse follows what a volatile value is used for.
func (d *determinism) volatileUse(f *ssa.Function, v ssa.Value, n string, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.BinOp, *ssa.Extract, *ssa.Field, *ssa.UnOp, *ssa.ChangeInterface, *ssa.Slice:
			d.volatileUse(f, u.(ssa.Value), n, seen)
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			addr := u.Addr
			if ia, ok := addr.(*ssa.IndexAddr); ok { // arguments
				addr = ia.X
			}
			al, _ := d.o.local(addr)
			if al == nil {
				d.bad(f, "volatile", u.Pos(), "%s stores what %s yields, which is different every time", shortFn(f), n)
				continue
			}
			cells := []ssa.Value{al}
			for _, fv := range d.o.captured(al) {
				cells = append(cells, fv)
			}
			for _, cl := range cells {
				for _, r := range *cl.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp:
						d.volatileUse(x.Parent(), x, n, seen)
					case *ssa.Slice:
						d.volatileUse(x.Parent(), x, n, seen)
					case *ssa.FieldAddr:
						for _, r := range *x.Referrers() {
							if ld, ok := r.(*ssa.UnOp); ok {
								d.volatileUse(x.Parent(), ld, n, seen)
							}
						}
					}
				}
			}
		case ssa.CallInstruction:
			if logging(u) {
				continue
			}
			g := u.Common().StaticCallee()
			if g != nil {
				gn := libName(g)
				if strings.HasPrefix(gn, "(time.") || strings.HasPrefix(gn, "time.") {
					if val, ok := u.(ssa.Value); ok {
						d.volatileUse(f, val, n, seen)
					}
					continue
				}
				if strings.HasPrefix(gn, "fmt.Fprint") && len(u.Common().Args) > 0 && stderr(u.Common().Args[0]) {
					continue
				}
				if strings.HasPrefix(gn, "fmt.Sprint") {
					if val, ok := u.(ssa.Value); ok {
						d.volatileUse(f, val, n, seen)
					}
					continue
				}
				if inMod(g) && len(g.Blocks) > 0 {
					for k, a := range u.Common().Args {
						if a == v && k < len(g.Params) {
							d.volatileUse(g, g.Params[k], n, seen)
						}
					}
					continue
				}
			}
			d.bad(f, "volatile", u.Pos(), "%s passes on what %s yields, which is different every time", shortFn(f), n)
		case *ssa.Return:
			// a helper's results are what its callers make of them
			calls, known := d.callsOf(f)
			if !known {
				d.bad(f, "volatile", u.Pos(), "%s yields what depends on %s, which is different every time", shortFn(f), n)
				continue
			}
			for _, ci := range calls {
				val, ok := ci.(*ssa.Call)
				if !ok {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					d.volatileUse(val.Parent(), val, n, seen)
					continue
				}
				for _, r := range *val.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index < len(u.Results) && u.Results[x.Index] == v {
						d.volatileUse(x.Parent(), x, n, seen)
					}
				}
			}
		default:
			d.bad(f, "volatile", u.Pos(), "what %s does depends on %s, which is different every time", shortFn(f), n)
		}
	}
}

func stderr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && g.String() == "os.Stderr"
		}
		return false
	}
}

// printed reports values whose address is printed.
func (d *determinism) printed(f *ssa.Function, call *ssa.Call) {
	for _, a := range call.Call.Args {
		if cst, ok := a.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
			if strings.Contains(strings.ReplaceAll(constant.StringVal(cst.Value), "%%", ""), "%p") {
				d.bad(f, "address", call.Pos(), "%s prints an address", shortFn(f))
			}
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, ref := range *al.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r := range *ia.Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok {
					continue
				}
				mi, ok := st.Val.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				d.c.Obl("values printed")
				t := mi.X.Type()
				if hasAddress(t, true, map[types.Type]bool{}) {
					d.bad(f, "address", call.Pos(), "%s prints a %s, which shows its address", shortFn(f), short(t.String()))
				}
			}
		}
	}
}

func prints(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"String", "Error", "Format", "GoString"} {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

func hasAddress(t types.Type, top bool, seen map[types.Type]bool) bool {
	if seen[t] || prints(t) {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Pointer:
		if !top {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Map, *types.Array:
			return hasAddress(u.Elem(), false, seen)
		}
		return true
	case *types.Slice:
		return hasAddress(u.Elem(), false, seen)
	case *types.Array:
		return hasAddress(u.Elem(), false, seen)
	case *types.Map:
		return hasAddress(u.Elem(), false, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasAddress(u.Field(i).Type(), false, seen) {
				return true
			}
		}
	}
	return false
}

// concurrency reports concurrent work other than logging.
func (d *determinism) concurrency(f *ssa.Function) {
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg == nil || root.Pkg.Pkg.Path() == cmdPkg || root.Pkg.Pkg.Name() == "main" {
		return // serving; what requests share is looked at elsewhere
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Select:
				if len(u.States) > 1 {
					d.bad(f, "select", u.Pos(), "%s takes whichever comes first of several channels", shortFn(f))
				}
			case ssa.CallInstruction:
				_, async := i.(*ssa.Go)
				targets := []*ssa.Function{}
				cc := u.Common()
				if async {
					for _, k := range d.r.callees(f, u) {
						targets = append(targets, k.callee)
					}
				} else if g := cc.StaticCallee(); g != nil && !inMod(g) {
					n := libName(g)
					if n == "time.AfterFunc" || strings.HasSuffix(n, "errgroup.Group).Go") || strings.HasSuffix(n, "sync.WaitGroup).Go") || strings.HasSuffix(n, "errgroup.Group).TryGo") {
						async = true
						for _, a := range cc.Args {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								targets = append(targets, mc.Fn.(*ssa.Function))
							} else if g, ok := a.(*ssa.Function); ok {
								targets = append(targets, g)
							}
						}
					}
				}
				if !async {
					continue
				}
				d.c.Obl("concurrent work")
				for _, g := range targets {
					if why := d.leaves(g, map[*ssa.Function]bool{}); why != "" {
						d.bad(f, "concurrent", u.Pos(), "%s starts concurrent work which %s", shortFn(f), why)
					}
				}
			}
		}
	}
}

// leaves says what a function leaves behind apart from logging.
func (d *determinism) leaves(g *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[g] {
		return ""
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Store:
				if al, _ := d.o.local(u.Addr); al != nil && al.Parent() == g {
					continue
				}
				if ia, ok := u.Addr.(*ssa.IndexAddr); ok {
					if al, _ := d.o.local(ia.X); al != nil && al.Parent() == g {
						continue
					}
				}
				return "assigns what others see"
			case *ssa.MapUpdate:
				return "changes a map"
			case *ssa.Send:
				return "sends to a channel"
			case ssa.CallInstruction:
				if logging(u) {
					continue
				}
				if n := calleeName(i); acquires[n] == "lock" || releases(n) == "lock" {
					continue
				}
				for _, k := range d.r.callees(g, u) {
					if why := d.leaves(k.callee, seen); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

// accumulates reports what grows from one load to the next.
func (d *determinism) accumulates(f *ssa.Function) {
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return
	}
	if f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
		return
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Store:
				place := d.lasting(u.Addr)
				if place == "" {
					continue
				}
				d.c.Obl("assignments to lasting places")
				if dependsOn(u.Val, func(v ssa.Value) bool {
					ld, ok := v.(*ssa.UnOp)
					return ok && ld.Op == token.MUL && d.lasting(ld.X) == place
				}) {
					switch u.Val.(type) {
					case *ssa.BinOp:
						d.bad(f, "accumulates", u.Pos(), "%s changes %s based on what it was: the next load finds it different", shortFn(f), short(place))
					case *ssa.Call:
						if bi, ok := u.Val.(*ssa.Call).Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							d.bad(f, "accumulates", u.Pos(), "%s adds to %s: the next load finds it different", shortFn(f), short(place))
						}
					}
				}
			case *ssa.Call:
				n := calleeName(i)
				if strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add") {
					if place := d.lasting(u.Call.Args[0]); place != "" {
						d.bad(f, "accumulates", u.Pos(), "%s counts in %s: the next load finds it different", shortFn(f), short(place))
					}
				}
			}
		}
	}
}

// lasting names a place which outlives a load.
func (d *determinism) lasting(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Global:
		if x.Pkg != nil && strings.HasPrefix(x.Pkg.Pkg.Path(), mod) {
			return x.String()
		}
	case *ssa.FieldAddr:
		if p := d.lasting(x.X); p != "" {
			return p + "." + slot(x)
		}
		if al, _ := d.o.local(x); al != nil {
			return ""
		}
		t := derefT(x.X.Type())
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case mod + "/load.Processor", mod + "/render.HTMLEngine", mod + "/render.TextEngine", mod + "/booklitcmd.Server":
			return slot(x)
		}
		for _, e := range d.c.engines() {
			if types.Identical(derefT(e), n) {
				return slot(x)
			}
		}
	}
	return ""
}

// callsOf is every call of an unexported function, and whether all are known.
func (d *determinism) callsOf(f *ssa.Function) ([]ssa.CallInstruction, bool) {
	if token.IsExported(f.Name()) || f.Parent() != nil || d.r.addressTaken()[f] {
		return nil, false
	}
	var calls []ssa.CallInstruction
	for _, g := range d.all {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					calls = append(calls, ci)
				}
			}
		}
	}
	return calls, len(calls) > 0
}
