package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(checkDef{
		ID: "C13", Title: "Evaluating or rendering never alters the document it works on",
		Rule:  "Ownership analysis. Every write into the elements of a slice or map of document values (element stores, map updates, copy, delete, clear, library functions working in place) and every append is examined: what it may write to must be storage made in this call (tracked through variables, fields of local structs by reaching stores, helper functions and their callers), a slice limited to its length, or the container an object holds in a field, with the result put back there; such fields must only ever receive storage of their own. Fields of sections, references and lazy content are only assigned in the phases allowed to: reading, rendering and stripping assign nothing but what a reference resolved to, collecting only tags.",
		Trust: []string{"libraries only modify what their documentation says", "Append extends the sequence it is given, as documented"},
		Run:   runC13,
	})
}

type ownMode int

const (
	ownAppend ownMode = iota // appending must not be visible to others
	ownElems                 // the elements belong to this call
)

// ownership is what a container's ownership depends on.
type ownership struct {
	bad    ssa.Value // a value which is not owned
	params map[*ssa.Parameter]bool
	slots  map[string]*ssa.FieldAddr
}

func (o *ownership) merge(p ownership) {
	if o.bad == nil {
		o.bad = p.bad
	}
	for k := range p.params {
		if o.params == nil {
			o.params = map[*ssa.Parameter]bool{}
		}
		o.params[k] = true
	}
	for k, v := range p.slots {
		if o.slots == nil {
			o.slots = map[string]*ssa.FieldAddr{}
		}
		o.slots[k] = v
	}
}

type ownKey struct {
	v ssa.Value
	m ownMode
}

type owner struct {
	c      *C
	all    []*ssa.Function
	calls  map[*ssa.Function][]ssa.CallInstruction // static call sites
	taken  map[*ssa.Function]bool                  // used as a value
	active map[*ssa.Call]bool
}

// document: containers of this element type hold document values.
func document(t types.Type) bool {
	seen := map[types.Type]bool{}
	var in func(t types.Type) bool
	in = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			if u.Obj().Pkg() != nil && strings.HasPrefix(u.Obj().Pkg().Path(), mod) {
				return true
			}
			return false
		case *types.Pointer:
			return in(u.Elem())
		case *types.Slice:
			return in(u.Elem())
		case *types.Array:
			return in(u.Elem())
		case *types.Map:
			return in(u.Elem()) || in(u.Key())
		}
		return false
	}
	return in(t)
}

func docContainer(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return document(u.Elem())
	case *types.Map:
		return document(u.Elem()) || document(t)
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return document(a.Elem())
		}
	}
	return false
}

// slot names the field of an object.
func slot(fa *ssa.FieldAddr) string {
	pt := types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem())
	return short(pt.String()) + "." + structOf(pt).Field(fa.Field).Name()
}

// local: the address is within a variable of this call (or its caller, for a
// closure); the path of fields leading to it is returned.
func (o *owner) local(a ssa.Value) (*ssa.Alloc, []int) {
	switch a := a.(type) {
	case *ssa.Alloc:
		return a, []int{}
	case *ssa.FreeVar:
		return o.bound(a), []int{}
	case *ssa.FieldAddr:
		al, p := o.local(a.X)
		if al == nil {
			return nil, nil
		}
		return al, append(p[:len(p):len(p)], a.Field)
	}
	return nil, nil
}

// bound is the variable a closure captured.
func (o *owner) bound(fv *ssa.FreeVar) *ssa.Alloc {
	f := fv.Parent()
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
				switch v := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return v
				case *ssa.FreeVar:
					return o.bound(v)
				}
			}
		}
	}
	return nil
}

// captured lists what stands for the variable in closures.
func (o *owner) captured(a *ssa.Alloc) []*ssa.FreeVar {
	out := []*ssa.FreeVar{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			mc, ok := ref.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for i, b := range mc.Bindings {
				if b == v {
					fv := mc.Fn.(*ssa.Function).FreeVars[i]
					out = append(out, fv)
					walk(fv)
				}
			}
		}
	}
	walk(a)
	return out
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// storeTo: the instruction stores to the variable's place, or to all of a
// struct holding it (rest is then the path within what is stored).
func (o *owner) storeTo(i ssa.Instruction, al *ssa.Alloc, path []int) (v ssa.Value, rest []int, ok bool) {
	st, isStore := i.(*ssa.Store)
	if !isStore {
		return nil, nil, false
	}
	a2, p2 := o.local(st.Addr)
	if a2 != al || len(p2) > len(path) || !samePath(p2, path[:len(p2)]) {
		return nil, nil, false
	}
	return st.Val, path[len(p2):], true
}

// reaching lists what a place of a variable may hold where it is loaded.
func (o *owner) reaching(load *ssa.UnOp, al *ssa.Alloc, path []int) (vals []ssa.Value, rests [][]int) {
	caps := o.captured(al)
	add := func(v ssa.Value, r []int) {
		vals = append(vals, v)
		rests = append(rests, r)
	}
	fns := map[*ssa.Function]bool{}
	for _, fv := range caps {
		fns[fv.Parent()] = true
	}
	if load.Parent() != al.Parent() {
		fns[al.Parent()] = true
	}
	for f := range fns {
		if f == load.Parent() {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v, r, ok := o.storeTo(i, al, path); ok {
					add(v, r)
				}
			}
		}
	}
	// backwards from the load
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for k := from - 1; k >= 0; k-- {
			if b.Instrs[k] == ssa.Instruction(al) {
				return // its zero value
			}
			if v, r, ok := o.storeTo(b.Instrs[k], al, path); ok {
				add(v, r)
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs))
			}
		}
	}
	at := 0
	for k, i := range load.Block().Instrs {
		if i == ssa.Instruction(load) {
			at = k
		}
	}
	back(load.Block(), at)
	return vals, rests
}

func notOwned(v ssa.Value) ownership { return ownership{bad: v} }

// within is the ownership of a container inside a struct value.
func (o *owner) within(v ssa.Value, path []int, m ownMode, seen map[ownKey]bool) ownership {
	if len(path) == 0 {
		return o.owned(v, m, seen)
	}
	if seen[ownKey{v, m}] {
		return ownership{}
	}
	seen[ownKey{v, m}] = true
	switch x := v.(type) {
	case *ssa.Const:
		return ownership{}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, p := o.local(x.X); al != nil {
				return o.loaded(x, al, append(p[:len(p):len(p)], path...), m, seen)
			}
		}
	case *ssa.Phi:
		r := ownership{}
		for _, e := range x.Edges {
			r.merge(o.within(e, path, m, seen))
		}
		return r
	case *ssa.ChangeType:
		return o.within(x.X, path, m, seen)
	case *ssa.Field:
		return o.within(x.X, append([]int{x.Field}, path...), m, seen)
	case *ssa.Parameter:
		// what every caller hands over
		g := x.Parent()
		if token.IsExported(g.Name()) || g.Parent() != nil || o.taken[g] || len(o.calls[g]) == 0 {
			break
		}
		r := ownership{}
		for i, q := range g.Params {
			if q != x {
				continue
			}
			for _, ci := range o.calls[g] {
				r.merge(o.within(ci.Common().Args[i], path, m, seen))
			}
		}
		return r
	case *ssa.Call:
		return o.withinResult(x, 0, v, path, m, seen)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return o.withinResult(call, x.Index, v, path, m, seen)
		}
	}
	return notOwned(v)
}

// withinResult: of a struct an unexported function of the module makes.
func (o *owner) withinResult(call *ssa.Call, idx int, v ssa.Value, path []int, m ownMode, seen map[ownKey]bool) ownership {
	g := call.Common().StaticCallee()
	if g == nil || !inMod(g) || len(g.Blocks) == 0 || token.IsExported(g.Name()) {
		return notOwned(v)
	}
	r := ownership{}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				r.merge(o.within(ret.Results[idx], path, m, seen))
			}
		}
	}
	return r
}

func (o *owner) loaded(load *ssa.UnOp, al *ssa.Alloc, path []int, m ownMode, seen map[ownKey]bool) ownership {
	r := ownership{}
	vals, rests := o.reaching(load, al, path)
	for i, v := range vals {
		r.merge(o.within(v, rests[i], m, seen))
	}
	return r
}

// unless: the value was found not to be a slice before this edge.
func excludedEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || len(from.Succs) != 2 || from.Succs[1] != to || from.Succs[0] == to {
		return false
	}
	ex, ok := iff.Cond.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	ta, ok := ex.Tuple.(*ssa.TypeAssert)
	if !ok || ta.X != v {
		return false
	}
	return strings.HasSuffix(ta.AssertedType.String(), mod+".Sequence")
}

// excludedAt: the value was found not to be a slice on every way to the block.
func excludedAt(v ssa.Value, at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		if d := b.Idom(); d != nil && len(b.Preds) == 1 && b.Preds[0] == d && excludedEdge(v, d, b) {
			return true
		}
	}
	return false
}

// owned is what a container's ownership depends on.
func (o *owner) owned(v ssa.Value, m ownMode, seen map[ownKey]bool) ownership {
	if seen[ownKey{v, m}] {
		return ownership{}
	}
	seen[ownKey{v, m}] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
		return ownership{}
	case *ssa.Parameter:
		return ownership{params: map[*ssa.Parameter]bool{x: true}}
	case *ssa.Slice:
		if m == ownAppend && x.Max != nil {
			return ownership{}
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if al, _ := o.local(x.X); al == nil {
				return notOwned(v)
			}
			return ownership{}
		}
		return o.owned(x.X, m, seen)
	case *ssa.MakeInterface:
		switch x.X.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return o.owned(x.X, m, seen)
		}
		return ownership{}
	case *ssa.ChangeType:
		return o.owned(x.X, m, seen)
	case *ssa.ChangeInterface:
		return o.owned(x.X, m, seen)
	case *ssa.TypeAssert:
		return o.owned(x.X, m, seen)
	case *ssa.Phi:
		r := ownership{}
		for i, e := range x.Edges {
			if from := x.Block().Preds[i]; excludedEdge(e, from, x.Block()) || excludedAt(e, from) {
				continue
			}
			r.merge(o.owned(e, m, seen))
		}
		return r
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return o.owned(t.X, m, seen)
		case *ssa.Call:
			return o.result(t, x.Index, v, m, seen)
		case *ssa.Lookup:
			return o.element(t.X, v, m, seen)
		}
	case *ssa.Call:
		return o.result(x, 0, v, m, seen)
	case *ssa.Lookup:
		return o.element(x.X, v, m, seen)
	case *ssa.Field:
		return o.within(x.X, []int{x.Field}, m, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if al, path := o.local(x.X); al != nil {
			return o.loaded(x, al, path, m, seen)
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			return ownership{slots: map[string]*ssa.FieldAddr{short(a.String()): nil}}
		case *ssa.FieldAddr:
			return ownership{slots: map[string]*ssa.FieldAddr{slot(a): a}}
		case *ssa.IndexAddr:
			return o.element(a.X, v, m, seen)
		}
	}
	return notOwned(v)
}

// element: containers held by a container are owned if it is, and only owned
// ones were put in.
func (o *owner) element(box, v ssa.Value, m ownMode, seen map[ownKey]bool) ownership {
	r := o.owned(box, ownElems, seen)
	if r.bad != nil || len(r.params) > 0 || len(r.slots) > 0 {
		return notOwned(v)
	}
	done := map[ssa.Value]bool{}
	var in func(b ssa.Value)
	in = func(b ssa.Value) {
		if b == nil || done[b] {
			return
		}
		done[b] = true
		if b.Referrers() != nil {
			for _, ref := range *b.Referrers() {
				switch u := ref.(type) {
				case *ssa.MapUpdate:
					if u.Map == b {
						r.merge(o.owned(u.Value, m, seen))
					}
				case *ssa.IndexAddr:
					for _, ref := range *u.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == u {
							r.merge(o.owned(st.Val, m, seen))
						}
					}
				}
			}
		}
		switch x := b.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				in(e)
			}
		case *ssa.Slice:
			in(x.X)
		case *ssa.ChangeType:
			in(x.X)
		case *ssa.UnOp:
			if al, path := o.local(x.X); al != nil {
				vals, rests := o.reaching(x, al, path)
				for i, w := range vals {
					if len(rests[i]) > 0 {
						if _, zero := w.(*ssa.Const); !zero {
							r.bad = v
						}
						continue
					}
					in(w)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				in(x.Call.Args[0])
				in(x.Call.Args[1])
			} else {
				r.bad = v
			}
		case *ssa.Extract:
			r.bad = v
		}
	}
	in(box)
	return r
}

func libName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	n := f.String()
	n, _, _ = strings.Cut(n, "[")
	return n
}

// result is the ownership of a call's result.
func (o *owner) result(call *ssa.Call, idx int, v ssa.Value, m ownMode, seen map[ownKey]bool) ownership {
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return o.owned(cc.Args[0], m, seen)
		}
		return notOwned(v)
	}
	g := cc.StaticCallee()
	if g == nil {
		return notOwned(v)
	}
	if !inMod(g) {
		switch n := libName(g); n {
		case "slices.Clone", "maps.Clone", "slices.Concat", "slices.Collect", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "maps.Collect", "slices.Repeat":
			return ownership{}
		case "slices.Clip":
			if m == ownAppend {
				return ownership{}
			}
			return o.owned(cc.Args[0], m, seen)
		case "slices.Grow", "slices.Insert", "slices.Delete", "slices.DeleteFunc", "slices.Compact", "slices.CompactFunc", "slices.Replace", "slices.AppendSeq":
			return o.owned(cc.Args[0], m, seen)
		}
		return notOwned(v)
	}
	if len(g.Blocks) == 0 {
		return notOwned(v)
	}
	if o.active[call] {
		return ownership{}
	}
	o.active[call] = true
	defer delete(o.active, call)
	r := ownership{}
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= idx {
			continue
		}
		if excludedAt(ret.Results[idx], b) {
			continue
		}
		sub := o.owned(ret.Results[idx], m, map[ownKey]bool{})
		r.bad = firstBad(r.bad, sub.bad)
		r.merge(ownership{slots: sub.slots})
		for p := range sub.params {
			r.merge(ownership{params: map[*ssa.Parameter]bool{p: true}})
		}
	}
	out := ownership{bad: r.bad, slots: r.slots}
	for p := range r.params {
		if p.Parent() != g {
			out.merge(ownership{params: map[*ssa.Parameter]bool{p: true}})
			continue
		}
		for i, q := range g.Params {
			if q == p && i < len(cc.Args) {
				out.merge(o.owned(cc.Args[i], m, seen))
			}
		}
	}
	return out
}

func firstBad(a, b ssa.Value) ssa.Value {
	if a != nil {
		return a
	}
	return b
}

// write is a modification of a container.
type ownWrite struct {
	base   ssa.Value
	mode   ownMode
	what   string
	fn     *ssa.Function
	at     ssa.Instruction
	result ssa.Value   // for append
	also   []ssa.Value // what callees made of it
}

// inPlace are library functions which modify the slice or map they are given.
var inPlace = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"slices.Insert": true, "slices.Delete": true, "slices.DeleteFunc": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true,
	"math/rand.Shuffle": true, "(reflect.Value).Set": true, "(reflect.Value).SetMapIndex": true,
}

func (o *owner) writes(f *ssa.Function) []ownWrite {
	out := []ownWrite{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch u := i.(type) {
			case *ssa.Store:
				a := u.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if ia, ok := a.(*ssa.IndexAddr); ok && docContainer(ia.X.Type()) {
					if _, ok := ia.X.Type().Underlying().(*types.Pointer); ok {
						if al, _ := o.local(ia.X); al != nil {
							continue
						}
					}
					out = append(out, ownWrite{ia.X, ownElems, "the elements are assigned", f, i, nil, nil})
				}
			case *ssa.MapUpdate:
				if docContainer(u.Map.Type()) {
					out = append(out, ownWrite{u.Map, ownElems, "the map is assigned to", f, i, nil, nil})
				}
			case ssa.CallInstruction:
				cc := u.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if len(cc.Args) == 0 || !docContainer(cc.Args[0].Type()) {
						continue
					}
					switch b.Name() {
					case "append":
						w := ownWrite{cc.Args[0], ownAppend, "it is appended to", f, i, nil, nil}
						if v, ok := u.(ssa.Value); ok {
							w.result = v
						}
						out = append(out, w)
					case "copy":
						out = append(out, ownWrite{cc.Args[0], ownElems, "it is copied into", f, i, nil, nil})
					case "delete", "clear":
						out = append(out, ownWrite{cc.Args[0], ownElems, "it is deleted from", f, i, nil, nil})
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil || inMod(g) || len(cc.Args) == 0 {
					continue
				}
				n := libName(g)
				if !inPlace[n] {
					continue
				}
				a := cc.Args[0]
				for {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
						continue
					}
					if ct, ok := a.(*ssa.ChangeType); ok {
						a = ct.X
						continue
					}
					break
				}
				if docContainer(a.Type()) {
					out = append(out, ownWrite{a, ownElems, "it is modified by " + n, f, i, nil, nil})
				}
			}
		}
	}
	return out
}

// putBack: the result of an append ends up in the field it came from.
func (o *owner) putBack(v ssa.Value, name string, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.Store:
			if fa, ok := u.Addr.(*ssa.FieldAddr); ok && u.Val == v && slot(fa) == name {
				return true
			}
			if g, ok := u.Addr.(*ssa.Global); ok && u.Val == v && short(g.String()) == name {
				return true
			}
			if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
				for _, r := range *al.Referrers() {
					if ld, ok := r.(*ssa.UnOp); ok && o.putBack(ld, name, seen) {
						return true
					}
				}
			}
		case *ssa.Return:
			// by whoever called
			g := u.Parent()
			if token.IsExported(g.Name()) || g.Parent() != nil || o.taken[g] {
				continue
			}
			for _, ci := range o.calls[g] {
				if call, ok := ci.(*ssa.Call); ok && o.putBack(call, name, seen) {
					return true
				}
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Slice:
			if o.putBack(u.(ssa.Value), name, seen) {
				return true
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && u.Call.Args[0] == v && o.putBack(u, name, seen) {
					return true
				}
				continue
			}
			// handed on to be extended further
			if len(u.Call.Args) > 0 && u.Call.Args[0] == v && o.putBack(u, name, seen) {
				return true
			}
		}
	}
	return false
}

func describe(v ssa.Value) string {
	if v == nil {
		return "?"
	}
	if n := v.Name(); n != "" {
		if _, ok := v.(*ssa.Parameter); ok {
			return n
		}
	}
	return v.String()
}

func runC13(c *C) {
	o := &owner{c: c, active: map[*ssa.Call]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			root := f
			for root.Parent() != nil {
				root = root.Parent()
			}
			if strings.HasSuffix(c.P.Fset.Position(root.Pos()).Filename, ".peg.go") && root.Name() != "init" {
				if f.Parent() == nil || root.Signature.Recv() != nil {
					continue
				}
			}
			o.all = append(o.all, f)
		}
	}
	for _, f := range o.all {
		if c.funcs == nil {
			c.funcs = map[string]bool{}
		}
		c.funcs[short(f.String())] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := i.(ssa.CallInstruction); ok {
					if callee = ci.Common().StaticCallee(); callee != nil {
						o.calls[callee] = append(o.calls[callee], ci)
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						if _, mc := i.(*ssa.MakeClosure); !mc {
							o.taken[g] = true
						}
					}
				}
			}
		}
	}
	work := []ownWrite{}
	for _, f := range o.all {
		work = append(work, o.writes(f)...)
	}
	type seenKey struct {
		at ssa.Instruction
		b  ssa.Value
		m  ownMode
	}
	done := map[seenKey]bool{}
	accum := map[string]ssa.Instruction{}
	objWrites := map[*ssa.Function]map[string]ssa.Instruction{}
	note := func(f *ssa.Function, s string, at ssa.Instruction) {
		if objWrites[f] == nil {
			objWrites[f] = map[string]ssa.Instruction{}
		}
		objWrites[f][s] = at
	}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		k := seenKey{w.at, w.base, w.mode}
		if done[k] {
			continue
		}
		done[k] = true
		c.Obl("modifications of containers")
		r := o.owned(w.base, w.mode, map[ownKey]bool{})
		name := shortFn(w.fn)
		if r.bad != nil {
			c.V("shared:"+name, w.at.Pos(), "%s of %s may be shared with a document or content given to it, but %s", describe(r.bad), name, w.what)
			continue
		}
		for s := range r.slots {
			c.Obl("modifications of what an object holds")
			accum[s] = w.at
			note(w.fn, s, w.at)
			back := o.putBack(w.result, s, map[ssa.Value]bool{})
			for _, v := range w.also {
				back = back || o.putBack(v, s, map[ssa.Value]bool{})
			}
			if w.mode == ownAppend && !back {
				c.V("extended:"+name+":"+s, w.at.Pos(), "%s extends the storage of %s without putting the result back: someone else may extend it too", name, s)
			}
		}
		for p := range r.params {
			g := p.Parent()
			idx := -1
			for i, q := range g.Params {
				if q == p {
					idx = i
				}
			}
			exported := token.IsExported(g.Name()) && g.Parent() == nil && !(g.Pkg != nil && g.Pkg.Pkg.Path() == mod && g.Name() == "Append" && idx == 0)
			if exported || o.taken[g] || g.Parent() != nil && len(o.calls[g]) == 0 {
				c.V("given:"+shortFn(g)+":"+p.Name(), w.at.Pos(), "%s modifies %s, which it was given: %s", shortFn(g), p.Name(), w.what)
				continue
			}
			for _, ci := range o.calls[g] {
				a := ci.Common().Args
				if idx >= len(a) {
					continue
				}
				nw := ownWrite{base: a[idx], mode: w.mode, what: w.what + " by " + shortFn(g), fn: ci.Parent(), at: ci}
				if v, ok := ci.(ssa.Value); ok {
					nw.result = v
				}
				nw.also = append(w.also[:len(w.also):len(w.also)], w.result)
				c.Obl("call sites of functions modifying what they are given")
				work = append(work, nw)
			}
		}
	}
	// fields holding such containers only receive storage of their own
	for _, f := range o.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := slot(fa)
				if accum[s] == nil {
					continue
				}
				c.Obl("what objects are given to hold")
				if types.IsInterface(st.Val.Type()) || docContainer(st.Val.Type()) {
					r := o.owned(st.Val, ownAppend, map[ownKey]bool{})
					for p := range r.params {
						if !o.paramOwned(p, s, map[*ssa.Parameter]bool{}) {
							r.bad = p
						}
					}
					for t := range r.slots {
						if t != s {
							r.bad = st.Val
						}
					}
					if r.bad != nil {
						c.V("kept:"+shortFn(f)+":"+s, st.Pos(), "%s puts %s into %s, which is modified later (%s): others may see that", shortFn(f), describe(r.bad), s, c.P.pos(accum[s].Pos()))
					}
				}
			}
		}
	}
	o.phases(objWrites)
	c.Need("modifications of containers", 1)
	c.Need("modifications of what an object holds", 1)
}

// paramOwned: every caller hands over storage of its own, or what the place
// held before.
func (o *owner) paramOwned(p *ssa.Parameter, s string, seen map[*ssa.Parameter]bool) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	g := p.Parent()
	if token.IsExported(g.Name()) && g.Parent() == nil || o.taken[g] || len(o.calls[g]) == 0 {
		return false
	}
	for i, q := range g.Params {
		if q != p {
			continue
		}
		for _, ci := range o.calls[g] {
			r := o.owned(ci.Common().Args[i], ownAppend, map[ownKey]bool{})
			if r.bad != nil {
				return false
			}
			for t := range r.slots {
				if t != s {
					return false
				}
			}
			for p2 := range r.params {
				if !o.paramOwned(p2, s, seen) {
					return false
				}
			}
		}
	}
	return true
}

// phases checks which fields of content objects each phase assigns.
func (o *owner) phases(obj map[*ssa.Function]map[string]ssa.Instruction) {
	c := o.c
	objects := map[string]bool{}
	for _, t := range c.P.contentTypes() {
		if p, ok := t.(*types.Pointer); ok {
			objects[short(p.Elem().String())] = true
		}
	}
	for _, f := range o.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if al, _ := o.local(fa); al != nil {
					continue
				}
				if obj[f] == nil {
					obj[f] = map[string]ssa.Instruction{}
				}
				obj[f][slot(fa)] = i
			}
		}
	}
	lazy := short(mod) + ".Lazy"
	phase := func(what string, roots []*ssa.Function, allowed func(t, field string, ft types.Type) bool) {
		r := newRaces(c)
		seen := map[*ssa.Function]bool{}
		stack := append([]*ssa.Function{}, roots...)
		for len(stack) > 0 {
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if f == nil || seen[f] || len(f.Blocks) == 0 {
				continue
			}
			seen[f] = true
			c.Obl("functions run while " + what)
			if rv := f.Signature.Recv(); rv != nil && short(derefT(rv.Type()).String()) == lazy && !c.visits(f) {
				continue // computes its content once
			}
			for s, at := range obj[f] {
				k := strings.LastIndex(s, ".")
				t, fld := s[:k], s[k+1:]
				if !objects[t] {
					continue
				}
				var ft types.Type
				if n := c.P.named(mod, strings.TrimPrefix(t, short(mod)+".")); n != nil {
					for j := 0; j < structOf(n).NumFields(); j++ {
						if structOf(n).Field(j).Name() == fld {
							ft = structOf(n).Field(j).Type()
						}
					}
				}
				c.Obl("fields of content assigned while " + what)
				if !allowed(t, fld, ft) {
					c.V("phase:"+what+":"+s, at.Pos(), "%s, which runs while %s, modifies %s", short(f.String()), what, s)
				}
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if cl := ci.Common().StaticCallee(); cl != nil {
						n := cl.String()
						if strings.Contains(n, "template.Template).Execute") {
							continue // roots of their own
						}
					}
					for _, k := range r.callees(f, ci) {
						stack = append(stack, k.callee)
					}
				}
			}
		}
	}
	// references remember what they refer to
	none := func(t, field string, ft types.Type) bool {
		return t == short(mod)+".Reference" && !token.IsExported(field)
	}
	reading, rendering := []*ssa.Function{}, []*ssa.Function{}
	var collecting []*ssa.Function
	for _, f := range o.all {
		if f.Pkg == nil || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		rv := f.Signature.Recv()
		switch f.Pkg.Pkg.Path() {
		case mod:
			res := f.Signature.Results()
			has := false
			for i := 0; i < res.Len(); i++ {
				has = has || res.At(i).Type().String() != "error"
			}
			if has {
				reading = append(reading, f)
			}
		case mod + "/stages":
			if rv != nil && typeName(rv.Type()) == "Collect" {
				collecting = append(collecting, f)
			}
		case renderPkg:
			rendering = append(rendering, f)
		}
	}
	for _, e := range c.templateFuncs(renderPkg) {
		rendering = append(rendering, e.Fn)
	}
	phase("reading content", reading, none)
	phase("rendering", rendering, none)
	phase("collecting tags", collecting, func(t, field string, ft types.Type) bool {
		s, ok := ft.(*types.Slice)
		return t == short(mod)+".Section" && ok && strings.HasSuffix(s.Elem().String(), mod+".Tag")
	})
	c.Need("functions run while reading content", 1)
	c.Need("functions run while rendering", 1)
	c.Need("functions run while collecting tags", 1)
}

// visits: a method every content has.
func (c *C) visits(f *ssa.Function) bool {
	ci := c.P.iface(mod, "Content")
	for i := 0; i < ci.NumMethods(); i++ {
		if ci.Method(i).Name() == f.Name() {
			return true
		}
	}
	return false
}

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
