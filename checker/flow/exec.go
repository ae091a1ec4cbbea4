package flow

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallInfo describes one call reached by the analysis.
type CallInfo struct {
	Instr  ssa.CallInstruction
	Callee *ssa.Function // statically resolved, or nil
	Method *types.Func   // interface method for invoke calls
	Func   *Term         // called value for dynamic calls
	Name   string        // resolved name
	Args   []*Term       // receiver first
	Pos    token.Pos
	Result types.Type
	Ctx    string
	Defer  bool
	Go     bool
}

// Outcome is one result of a handled call.
type Outcome struct {
	St  *State
	Res *Term
}

// Stop is returned by handlers to end the path.
var Stop = []Outcome{}

// Rule receives the events of an analysis.
type Rule struct {
	// Call may handle a call: return outcomes and true. nil,false = default.
	Call func(x *Exec, st *State, c *CallInfo) ([]Outcome, bool)
	// Inline decides whether a resolved function is analysed inline.
	Inline func(fn *ssa.Function) bool
	// Reenter is how often a function may be entered while it is active.
	Reenter int
	// Store observes stores.
	Store func(x *Exec, st *State, addr, v *Term, instr ssa.Instruction)
	// MapUpdate observes map writes.
	MapUpdate func(x *Exec, st *State, m, k, v *Term, instr ssa.Instruction)
	// Return observes normal exits of the root function.
	Return func(x *Exec, st *State, res []*Term, pos token.Pos)
	// Panic observes explicit panics.
	Panic func(x *Exec, st *State, pos token.Pos)
	// BackEdge observes the end of a loop iteration.
	BackEdge func(x *Exec, st *State, l *Loop)
	// LoopExit observes leaving a loop.
	LoopExit func(x *Exec, st *State, l *Loop, exhausted bool, pos token.Pos)
	// LoopEnter observes entering a loop.
	LoopEnter func(x *Exec, st *State, l *Loop)
	// Unroll walks through up to this many iterations of loops, one by one,
	// instead of summarising them. Longer paths are undecided.
	Unroll int
	// Global may know the value of a package's variable.
	Global func(t *Term) *Term
	// Keep marks terms whose facts must survive.
	Keep func(t *Term) bool
	// Instr observes every instruction before it is executed.
	Instr func(x *Exec, st *State, i ssa.Instruction)
	// Branch observes decided branches.
	Branch func(x *Exec, st *State, cond *Term, taken bool, instr *ssa.If)
}

// Loop identifies a loop instance.
type Loop struct {
	Header *ssa.BasicBlock
	Ctx    string
	Phis   map[string]*Term
	// Index is the element index term of one iteration and Over the sequence
	// it ranges over completely, when recognised.
	Over  *Term
	Index *Term
	// MapOver is the map ranged over and MapKey the key of one iteration.
	MapOver, MapKey *Term
	// Seq is the sequence of which elements from From on are ranged over.
	Seq  *Term
	At   *Term
	From int64
	// Steps are the next values of the loop's symbols (in BackEdge only).
	Steps map[*Term]*Term
	Key   string
}

// LoopSum summarises every iteration of a loop.
type LoopSum struct {
	Over, Index     *Term
	MapOver, MapKey *Term
	Seq, At         *Term
	From            int64
	Iters           []Iter
	Exits           []Exit
	Pos             token.Pos
}

// Iter is one end of iteration: next symbol values and the state there.
type Iter struct {
	Steps map[*Term]*Term
	St    *State
}

// Exit is one way of leaving a loop.
type Exit struct {
	St        *State
	Exhausted bool
	Pos       token.Pos
	Ret       bool
}

// Exec is one analysis run.
type Exec struct {
	Fset   *token.FileSet
	Rule   *Rule
	Module string // module path prefix: functions below it may be inlined
	Max    int

	States int
	Over   bool // state budget exceeded
	Calls  map[token.Pos]bool
	Funcs  map[*ssa.Function]bool
	Undec  []string

	// LoopSums summarises loops; SymLoop maps loop-variant symbols to them.
	LoopSums map[string]*LoopSum
	SymLoop  map[*Term]string

	// LoopVary holds the addresses each loop changes.
	LoopVary map[string]map[*Term]bool

	// IdxStores are stores into made lists (element or element field).
	IdxStores []IdxStore
	// Copies are whole lists copied into made lists.
	Copies map[*Term]*Term

	// Opaque marks functions that are never followed.
	Opaque func(fn *ssa.Function) bool

	// Rec records loop-variant symbols: initial and step values.
	Rec map[*Term]*Recur

	// OnPass is told which pass starts: 0 only learns recurrences and loop
	// summaries, 1 is the deciding pass. Sums1 holds the summaries of pass 0.
	OnPass func(pass int)
	Sums1  map[string]*LoopSum

	work []*State
	seen map[string]bool
	info map[*ssa.Function]*fnInfo
}

// IdxStore is a store into an element of a made list.
type IdxStore struct {
	Base, Idx, Val *Term
	Field          string
	St             *State
}

// In reports whether a state has passed through the store since the last time
// its list was made and its index came by, with nothing stored over it since.
func (is IdxStore) In(st *State) bool {
	return st.Has(idxKind+is.Field, is.Base, is.Idx, is.Val)
}

const idxKind = "idx:"

func (is IdxStore) note(st *State) {
	for k, it := range st.Auto {
		if strings.HasPrefix(it.Kind, idxKind) && it.Terms[0] == is.Base && it.Terms[1] == is.Idx && (is.Field == "" || it.Kind == idxKind+is.Field) {
			delete(st.Auto, k)
		}
	}
	st.Add(idxKind+is.Field, is.Base, is.Idx, is.Val)
}

// Recur is the recurrence of a loop-variant symbol.
type Recur struct {
	Init  map[*Term]bool
	Steps map[*Term]bool
	// Absent are the values which may have been nil when they were assigned.
	Absent map[*Term]bool
}

func (r *Recur) add(to map[*Term]bool, v *Term, st *State) {
	to[v] = true
	if st.IsNil(v) != 0 {
		r.Absent[v] = true
	}
}

// NewExec makes an analysis run.
func NewExec(fset *token.FileSet, module string, r *Rule) *Exec {
	return &Exec{Fset: fset, Rule: r, Module: module, Max: 60000, Calls: map[token.Pos]bool{}, Funcs: map[*ssa.Function]bool{}, Rec: map[*Term]*Recur{}, LoopVary: map[string]map[*Term]bool{}, LoopSums: map[string]*LoopSum{}, SymLoop: map[*Term]string{}, seen: map[string]bool{}, info: map[*ssa.Function]*fnInfo{}}
}

type loopMeta struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	loops  map[*ssa.BasicBlock]*loopMeta
	inLoop map[*ssa.BasicBlock][]*loopMeta // outermost first
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Exec) fn(f *ssa.Function) *fnInfo {
	if i, ok := x.info[f]; ok {
		return i
	}
	i := &fnInfo{loops: map[*ssa.BasicBlock]*loopMeta{}, inLoop: map[*ssa.BasicBlock][]*loopMeta{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &loopMeta{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		ls := []*loopMeta{}
		for _, l := range i.loops {
			if l.blocks[b] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(a, c int) bool {
			if len(ls[a].blocks) != len(ls[c].blocks) {
				return len(ls[a].blocks) > len(ls[c].blocks)
			}
			return ls[a].header.Index < ls[c].header.Index
		})
		i.inLoop[b] = ls
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		use[b], def[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		i.live[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && !def[b][*op] {
						use[b][*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b][v] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for k := len(f.Blocks) - 1; k >= 0; k-- {
			b := f.Blocks[k]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					out[v] = true
				}
				for pi, p := range s.Preds {
					if p == b {
						for _, in := range s.Instrs {
							if phi, ok := in.(*ssa.Phi); ok {
								out[phi.Edges[pi]] = true
							}
						}
					}
				}
			}
			lv := i.live[b]
			add := func(v ssa.Value) {
				if !lv[v] {
					lv[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for v := range out {
				if !def[b][v] {
					add(v)
				}
			}
			// phi results of this block are defined on entry: not live-in
		}
	}
	x.info[f] = i
	return i
}

// Run analyses fn from the given arguments (nil entries become parameters).
func (x *Exec) Run(fn *ssa.Function, args []*Term, setup func(*State)) {
	if x.OnPass != nil {
		for p := 0; p < 2; p++ {
			// first which memory the loops change, then the recurrences
			x.OnPass(0)
			x.run(fn, args, setup)
			if p == 0 {
				x.Rec = map[*Term]*Recur{}
			}
			x.IdxStores, x.Copies = nil, nil
			x.seen, x.Sums1, x.LoopSums, x.States, x.Undec, x.Over = map[string]bool{}, x.LoopSums, map[string]*LoopSum{}, 0, nil, false
		}
		x.OnPass(1)
	}
	x.run(fn, args, setup)
}

func (x *Exec) run(fn *ssa.Function, args []*Term, setup func(*State)) {
	st := &State{Mem: map[*Term]*Term{}, Facts: map[*Term]bool{}, Ivals: map[*Term]ival{}, Auto: map[string]Item{}}
	fr := &Frame{Fn: fn, Env: map[ssa.Value]*Term{}, Ctx: ""}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.Env[p] = args[i]
		} else {
			fr.Env[p] = mk("param", p.Name(), p.Type())
		}
	}
	for _, v := range fn.FreeVars {
		fr.Env[v] = mk("freevar", fn.Name()+"."+v.Name(), v.Type())
	}
	if len(fn.Blocks) == 0 {
		x.undecided("function %s has no body", fn)
		return
	}
	fr.Block = fn.Blocks[0]
	st.Frames = []*Frame{fr}
	if setup != nil {
		setup(st)
	}
	x.Funcs[fn] = true
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		if x.States > x.Max {
			x.Over = true
			x.undecided("state budget exceeded in %s", fn)
			x.work = nil
			return
		}
		x.step(s)
	}
}

func (x *Exec) undecided(f string, a ...any) { x.Undec = append(x.Undec, fmt.Sprintf(f, a...)) }

// step runs a state until it forks or ends.
func (x *Exec) step(st *State) {
	for {
		if len(st.Frames) == 0 {
			return
		}
		fr := st.top()
		if fr.Idx == 0 {
			// block entry: dedupe
			x.prune(st)
			k := st.key()
			if x.seen[k] {
				return
			}
			x.seen[k] = true
			x.States++
			if x.States > x.Max {
				return
			}
		}
		if fr.Idx >= len(fr.Block.Instrs) {
			return
		}
		ins := fr.Block.Instrs[fr.Idx]
		fr.Idx++
		if x.Rule.Instr != nil {
			x.Rule.Instr(x, st, ins)
		}
		if !x.exec(st, fr, ins) {
			return
		}
	}
}

func (x *Exec) prune(st *State) {
	for i, f := range st.Frames {
		if i == len(st.Frames)-1 {
			lv := x.fn(f.Fn).live[f.Block]
			phis := map[ssa.Value]bool{}
			for _, in := range f.Block.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					phis[p] = true
				}
			}
			for _, li := range f.Loops {
				for _, in := range li.header.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						phis[p] = true
					}
				}
			}
			for v := range f.Env {
				if !lv[v] && !phis[v] {
					delete(f.Env, v)
				}
			}
		}
	}
	live := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if !t.site || seen[t] {
			return
		}
		seen[t] = true
		if siteOps[t.Op] {
			live[t] = true
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, f := range st.Frames {
		for _, t := range f.Env {
			visit(t)
		}
		for _, d := range f.Defers {
			if d.fn != nil {
				visit(d.fn)
			}
			for _, t := range d.args {
				visit(t)
			}
		}
	}
	for _, it := range st.Auto {
		for _, t := range it.Terms {
			visit(t)
		}
	}
	// memory of live allocations (iterate to a fixed point)
	for ch := true; ch; {
		ch = false
		for a, v := range st.Mem {
			root := rootOf(a)
			if root.Op == "alloc" && !live[root] {
				continue
			}
			if v.site && !seen[v] {
				visit(v)
				ch = true
			}
			if a.site && !seen[a] {
				visit(a)
				ch = true
			}
		}
	}
	for a := range st.Mem {
		root := rootOf(a)
		if root.Op == "alloc" && !live[root] {
			delete(st.Mem, a)
		}
	}
	dead := func(t *Term) bool {
		if !t.site {
			return false
		}
		if x.Rule.Keep != nil && t.Has(x.Rule.Keep) {
			return false
		}
		return t.Has(func(s *Term) bool { return siteOps[s.Op] && !live[s] })
	}
	for f := range st.Facts {
		if dead(f) {
			delete(st.Facts, f)
		}
	}
	for f := range st.Ivals {
		if dead(f) {
			delete(st.Ivals, f)
		}
	}
}

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

// Val evaluates an SSA value in the active frame.
func (x *Exec) Val(st *State, v ssa.Value) *Term { return x.val(st, st.top(), v) }

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v.Value, v.Type())
	case *ssa.Global:
		return mk("gaddr", v.String(), v.Type())
	case *ssa.Function:
		funcCache[v.String()] = v
		return mk("func", v.String(), v.Type())
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type())
	}
	if t, ok := fr.Env[v]; ok {
		return t
	}
	return mk("opaque", uname(fr.Fn)+"."+v.Name()+fr.Ctx, v.Type())
}

func (x *Exec) site(fr *Frame, ins ssa.Instruction) string {
	name := ""
	if v, ok := ins.(ssa.Value); ok {
		name = v.Name()
	} else {
		name = strconv.Itoa(ins.Block().Index) + "_" + strconv.Itoa(int(ins.Pos()))
	}
	return uname(fr.Fn) + "." + name + fr.Ctx
}

func (x *Exec) set(fr *Frame, v ssa.Value, t *Term) { fr.Env[v] = t }

// exec executes one instruction; false ends the stepping of st.
func (x *Exec) exec(st *State, fr *Frame, ins ssa.Instruction) bool {
	val := func(v ssa.Value) *Term { return x.val(st, fr, v) }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled on the edge
	case *ssa.Alloc:
		a := mk("alloc", x.site(fr, i), i.Type().Underlying().(*types.Pointer).Elem())
		st.Forget(a)
		for m := range st.Mem {
			if m == a || underAddr(m, a) {
				delete(st.Mem, m)
			}
		}
		x.set(fr, i, a)
	case *ssa.FieldAddr:
		s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := s.Field(i.Field)
		x.set(fr, i, mk("fa", f.Name(), f.Type(), val(i.X)))
	case *ssa.IndexAddr:
		xx := val(i.X)
		et := i.Type().Underlying().(*types.Pointer).Elem()
		ix := val(i.Index)
		if xx.Op == "slice" {
			if lo, ok := xx.Args[1].IsInt(); ok {
				xx, ix = xx.Args[0], Add(ix, Int(lo))
			}
		}
		x.set(fr, i, mk("ia", "", et, xx, ix))
	case *ssa.Field:
		s := i.X.Type().Underlying().(*types.Struct)
		f := s.Field(i.Field)
		x.set(fr, i, Field(val(i.X), f.Name(), f.Type()))
	case *ssa.Index:
		x.set(fr, i, Elem(val(i.X), val(i.Index), i.Type()))
	case *ssa.Lookup:
		m, k := val(i.X), val(i.Index)
		vt := i.Type()
		if i.CommaOk {
			tup := i.Type().(*types.Tuple)
			has := mk("haskey", "", types.Typ[types.Bool], m, k)
			x.set(fr, i, mk("tuple", "", nil, mk("lookup", "", tup.At(0).Type(), m, k), has))
		} else if _, isMap := i.X.Type().Underlying().(*types.Map); isMap {
			x.set(fr, i, mk("lookup", "", vt, m, k))
		} else {
			x.set(fr, i, Elem(m, k, vt))
		}
	case *ssa.UnOp:
		a := val(i.X)
		switch i.Op {
		case token.MUL:
			v := st.load(a, i.Type())
			if v.Op == "global" && x.Rule.Global != nil {
				if g := x.Rule.Global(v); g != nil {
					v = g
				}
			}
			x.set(fr, i, v)
		case token.NOT:
			x.set(fr, i, Not(a))
		case token.SUB:
			if n, ok := a.IsInt(); ok {
				x.set(fr, i, Int(-n))
			} else {
				x.set(fr, i, mk("neg", "", i.Type(), a))
			}
		default:
			x.set(fr, i, mk("unop", i.Op.String(), i.Type(), a))
		}
	case *ssa.BinOp:
		x.set(fr, i, x.binop(i, val(i.X), val(i.Y)))
	case *ssa.ChangeType:
		x.set(fr, i, val(i.X))
	case *ssa.ChangeInterface:
		x.set(fr, i, val(i.X))
	case *ssa.Convert:
		a := val(i.X)
		if isString(i.Type()) && isString(i.X.Type()) {
			x.set(fr, i, a)
		} else if isNum(i.Type()) && isNum(i.X.Type()) {
			x.set(fr, i, a)
		} else {
			x.set(fr, i, mk("conv", "", i.Type(), a))
		}
	case *ssa.MultiConvert:
		x.set(fr, i, mk("conv", "", i.Type(), val(i.X)))
	case *ssa.SliceToArrayPointer:
		x.set(fr, i, mk("conv", "", i.Type(), val(i.X)))
	case *ssa.MakeInterface:
		x.set(fr, i, Iface(i.X.Type(), val(i.X)))
	case *ssa.TypeAssert:
		a := val(i.X)
		if i.CommaOk {
			x.set(fr, i, mk("tuple", "", nil, TypeAssert(a, i.AssertedType), TypeIs(a, i.AssertedType)))
		} else {
			x.set(fr, i, TypeAssert(a, i.AssertedType))
		}
	case *ssa.Extract:
		tp := val(i.Tuple)
		if tp.Op == "tuple" && i.Index < len(tp.Args) {
			x.set(fr, i, tp.Args[i.Index])
		} else {
			x.set(fr, i, mk("result", strconv.Itoa(i.Index), i.Type(), tp))
		}
	case *ssa.Slice:
		x.set(fr, i, x.slice(st, fr, i))
	case *ssa.MakeSlice:
		if n, ok := val(i.Len).IsInt(); ok && n == 0 {
			x.set(fr, i, mk("cat", "", i.Type()))
		} else {
			m := mk("make", x.site(fr, i), i.Type(), val(i.Len))
			st.Forget(m)
			x.set(fr, i, m)
		}
	case *ssa.MakeMap:
		m := mk("make", x.site(fr, i), i.Type())
		st.Forget(m)
		x.set(fr, i, m)
	case *ssa.MakeChan:
		x.set(fr, i, mk("make", x.site(fr, i), i.Type(), val(i.Size)))
	case *ssa.MakeClosure:
		args := []*Term{}
		for _, b := range i.Bindings {
			args = append(args, val(b))
		}
		x.set(fr, i, mk("closure", i.Fn.(*ssa.Function).String(), i.Type(), args...))
		closures[i.Fn.(*ssa.Function).String()] = i.Fn.(*ssa.Function)
	case *ssa.Range:
		x.set(fr, i, mk("range", "", i.Type(), val(i.X)))
	case *ssa.Next:
		r := val(i.Iter)
		over := r
		if len(r.Args) > 0 {
			over = r.Args[0]
		}
		k := mk("rangekey", x.site(fr, i), nil, over)
		st.Forget(k)
		okT := mk("opaque", "ok:"+x.site(fr, i), types.Typ[types.Bool], over)
		st.Forget(okT)
		tup := i.Type().(*types.Tuple)
		x.set(fr, i, mk("tuple", "", nil, okT, k, mk("lookup", "", tup.At(2).Type(), over, k)))
	case *ssa.Store:
		a, v := val(i.Addr), val(i.Val)
		if x.Rule.Store != nil {
			x.Rule.Store(x, st, a, v, i)
		}
		if r := rootOf(a); r.Op == "make" {
			is := IdxStore{Base: r, Val: v, St: st.clone()}
			e := a
			for e.Op == "fa" && e.Args[0].Op == "fa" {
				e = e.Args[0]
			}
			if e.Op == "fa" {
				is.Field = e.Str
				e = e.Args[0]
				if a.Args[0] != e {
					e = a // too deep
				}
			}
			if e.Op == "ia" && e.Args[0] == r {
				is.Idx = e.Args[1]
				x.IdxStores = append(x.IdxStores, is)
				is.note(st)
			}
		}
		st.store(a, v)
	case *ssa.MapUpdate:
		if x.Rule.MapUpdate != nil {
			x.Rule.MapUpdate(x, st, val(i.Map), val(i.Key), val(i.Value), i)
		}
	case *ssa.Send, *ssa.Select:
		if v, ok := ins.(ssa.Value); ok {
			x.set(fr, v, mk("opaque", x.site(fr, ins), v.Type()))
		}
	case *ssa.Call:
		return x.call(st, fr, i, &i.Call, nil, nil, false)
	case *ssa.Go:
		x.callEvent(st, fr, i)
	case *ssa.Defer:
		d := deferred{instr: i}
		if !i.Call.IsInvoke() {
			d.fn = val(i.Call.Value)
		} else {
			d.args = append(d.args, val(i.Call.Value))
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, val(a))
		}
		fr.Defers = append(fr.Defers, d)
	case *ssa.RunDefers:
		if n := len(fr.Defers); n > 0 {
			d := fr.Defers[n-1]
			fr.Defers = fr.Defers[:n-1]
			fr.Idx-- // come back for the rest
			return x.call(st, fr, d.instr, &d.instr.Call, d.fn, d.args, true)
		}
	case *ssa.Jump:
		return x.edge(st, fr, fr.Block.Succs[0], false)
	case *ssa.If:
		c := val(i.Cond)
		r := st.Decide(c)
		if r >= 0 {
			if x.Rule.Branch != nil {
				x.Rule.Branch(x, st, c, r == 1, i)
			}
			return x.edge(st, fr, fr.Block.Succs[1-r], false)
		}
		st2 := st.clone()
		if st2.Assume(c, false) {
			x.trace(st2, i.Cond.Pos(), i, c, false)
			if x.Rule.Branch != nil {
				x.Rule.Branch(x, st2, c, false, i)
			}
			if x.edge(st2, st2.top(), fr.Block.Succs[1], true) {
				x.work = append(x.work, st2)
			}
		}
		if !st.Assume(c, true) {
			return false
		}
		x.trace(st, i.Cond.Pos(), i, c, true)
		if x.Rule.Branch != nil {
			x.Rule.Branch(x, st, c, true, i)
		}
		return x.edge(st, fr, fr.Block.Succs[0], true)
	case *ssa.Return:
		res := []*Term{}
		for _, r := range i.Results {
			res = append(res, val(r))
		}
		return x.ret(st, fr, res, i.Pos())
	case *ssa.Panic:
		if x.Rule.Panic != nil {
			x.Rule.Panic(x, st, i.Pos())
		}
		return false
	default:
		if v, ok := ins.(ssa.Value); ok {
			x.set(fr, v, mk("opaque", x.site(fr, ins), v.Type()))
		}
	}
	return true
}

var closures = map[string]*ssa.Function{}

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (x *Exec) trace(st *State, pos token.Pos, i *ssa.If, c *Term, taken bool) {
	p := pos
	if !p.IsValid() {
		for k := len(i.Block().Instrs) - 1; k >= 0 && !p.IsValid(); k-- {
			p = i.Block().Instrs[k].Pos()
		}
	}
	s := c.String()
	if !taken {
		s = "!(" + s + ")"
	}
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	if p.IsValid() {
		pp := x.Fset.Position(p)
		s = fmt.Sprintf("%s:%d %s", base(pp.Filename), pp.Line, s)
	}
	n := 0
	if st.Trace != nil {
		n = st.Trace.n
	}
	st.Trace = &traceNode{prev: st.Trace, text: s, n: n + 1}
}

func base(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Path describes the branches that led to a state.
func (st *State) Path() string {
	parts := []string{}
	for t := st.Trace; t != nil && len(parts) < 10; t = t.prev {
		parts = append([]string{t.text}, parts...)
	}
	return strings.Join(parts, " ; ")
}

func (x *Exec) binop(i *ssa.BinOp, a, b *Term) *Term {
	switch i.Op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		if isString(i.X.Type()) {
			break
		}
		return Lt(a, b)
	case token.GTR:
		if isString(i.X.Type()) {
			break
		}
		return Lt(b, a)
	case token.LEQ:
		if isString(i.X.Type()) {
			break
		}
		return Not(Lt(b, a))
	case token.GEQ:
		if isString(i.X.Type()) {
			break
		}
		return Not(Lt(a, b))
	case token.ADD:
		if isString(i.X.Type()) {
			return StrCat(a, b)
		}
		return Add(a, b)
	case token.SUB:
		if n, ok := b.IsInt(); ok {
			return Add(a, Int(-n))
		}
		if a == b {
			return Int(0)
		}
		return mk("sub", "", i.Type(), a, b)
	case token.AND:
		if isBoolT(i.Type()) {
			return mk("and", "", i.Type(), a, b)
		}
	case token.OR:
		if isBoolT(i.Type()) {
			return mk("or", "", i.Type(), a, b)
		}
	}
	return mk("binop", i.Op.String(), i.Type(), a, b)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) *Term {
	v := x.val(st, fr, i.X)
	opt := func(s ssa.Value) *Term {
		if s == nil {
			return Nil()
		}
		return x.val(st, fr, s)
	}
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok && i.Low == nil && i.High == nil && v.Op == "alloc" {
			parts := []*Term{}
			for k := int64(0); k < arr.Len(); k++ {
				ad := mk("ia", "", arr.Elem(), v, Int(k))
				if mv, ok := st.Mem[ad]; ok {
					// overlay of deeper stores
					_ = mv
				}
				e := st.load(ad, arr.Elem())
				if e.Op == "elem" && e.Args[0].Op == "zero" {
					e = ZeroOf(arr.Elem())
				}
				parts = append(parts, One(e))
			}
			return mk("cat", "", i.Type(), parts...)
		}
	}
	lo := opt(i.Low)
	if lo.IsNil() {
		lo = Int(0)
	}
	hi, max := opt(i.High), opt(i.Max)
	if n, ok := lo.IsInt(); ok && n == 0 && hi.IsNil() && max.IsNil() {
		return v
	}
	if h, ok := hi.IsInt(); ok && h == 0 && max.IsNil() {
		return mk("slice", "", i.Type(), v, Int(0), Int(0))
	}
	if n, ok := lo.IsInt(); ok && v.Op == "slice" && hi.IsNil() && max.IsNil() && v.Args[2].IsNil() {
		if m, ok := v.Args[1].IsInt(); ok {
			return mk("slice", "", i.Type(), v.Args[0], Int(n+m), Nil())
		}
	}
	if v.Op == "cat" && hi.IsNil() && max.IsNil() {
		if n, ok := lo.IsInt(); ok && int(n) <= len(v.Args) {
			ok := true
			for _, p := range v.Args[:n] {
				ok = ok && p.Op == "one"
			}
			if ok {
				return mk("cat", "", i.Type(), v.Args[n:]...)
			}
		}
	}
	if max.IsNil() {
		return mk("slice", "", i.Type(), v, lo, hi)
	}
	return mk("slice", "", i.Type(), v, lo, hi, max)
}

// edge moves to a successor block, handling phis and loops.
func (x *Exec) edge(st *State, fr *Frame, to *ssa.BasicBlock, branch bool) bool {
	from := fr.Block
	inf := x.fn(fr.Fn)
	// leaving loops?
	for n := len(fr.Loops) - 1; n >= 0; n-- {
		li := fr.Loops[n]
		meta := inf.loops[li.header]
		if meta.blocks[to] {
			break
		}
		{
			l := x.loop(st, fr, li.header)
			exhausted := from == li.header
			pos := token.NoPos
			for _, in := range from.Instrs {
				if in.Pos().IsValid() {
					pos = in.Pos()
				}
			}
			sum := x.loopSum(l)
			sum.Exits = append(sum.Exits, Exit{St: st.clone(), Exhausted: exhausted, Pos: pos})
			if !exhausted {
				st.AddSticky("left:" + l.Key)
			}
			if x.Rule.LoopExit != nil {
				x.Rule.LoopExit(x, st, l, exhausted, pos)
			}
		}
		fr.Loops = fr.Loops[:n]
	}
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			// If with both edges to the same block cannot be told apart
			break
		}
	}
	phis := []*ssa.Phi{}
	vals := []*Term{}
	for _, in := range to.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			vals = append(vals, x.val(st, fr, phi.Edges[pi]))
		} else {
			break
		}
	}
	meta := inf.loops[to]
	if meta != nil && (x.Rule.Unroll > 0 || x.fewTimes(st, fr, meta, inf)) {
		fr.unrolled++
		if k := strings.LastIndexByte(fr.Ctx, '~'); k >= 0 && !strings.Contains(fr.Ctx[k:], "/") {
			fr.Ctx = fr.Ctx[:k]
		}
		fr.Ctx += "~" + strconv.Itoa(fr.unrolled)
		if fr.unrolled > x.Rule.Unroll && fr.unrolled > 32 {
			x.undecided("too many iterations in %s", fr.Fn)
			return false
		}
		meta = nil
	}
	if meta == nil {
		for k, phi := range phis {
			fr.Env[phi] = vals[k]
		}
		fr.Prev, fr.Block, fr.Idx = from, to, 0
		return true
	}
	if !meta.blocks[from] || !to.Dominates(from) {
		// loop entry
		for k, phi := range phis {
			if x.invariantPhi(phi, meta, vals[k]) {
				fr.Env[phi] = vals[k]
				continue
			}
			t := mk("loopphi", x.site(fr, phi), phi.Type())
			st.Forget(t)
			r := x.Rec[t]
			if r == nil {
				r = &Recur{Init: map[*Term]bool{}, Steps: map[*Term]bool{}, Absent: map[*Term]bool{}}
				x.Rec[t] = r
			}
			r.add(r.Init, vals[k], st)
			if iv := st.interval(vals[k]); isNum(phi.Type()) {
				up, down := x.monotone(phi, meta)
				v := ival{-inf_, inf_}
				if up {
					v.lo = iv.lo
				}
				if down {
					v.hi = iv.hi
				}
				st.Ivals[t] = v
			}
			// a flag remembers how it started on this path
			for _, it := range st.Items("began") {
				if it.Terms[0] == t {
					st.Del("began", it.Terms...)
				}
			}
			if _, ok := vals[k].IsBool(); ok {
				st.AddSticky("began", t, vals[k])
			}
			fr.Env[phi] = t
			x.SymLoop[t] = x.siteLoop(fr, to)
		}
		vary := map[*Term]bool{}
		key := x.siteLoop(fr, to)
		st.Del("left:" + key)
		pre := copyMem(st.Mem)
		for a := range x.LoopVary[key] {
			if a.Has(func(t *Term) bool { return x.SymLoop[t] == key && t.Op != "mphi" }) {
				continue
			}
			old := st.baseIn(pre, a)
			m := mk("mphi", key+"."+strconv.Itoa(a.ID), a.Typ, a)
			if old == m {
				continue
			}
			r := x.Rec[m]
			if r == nil {
				r = &Recur{Init: map[*Term]bool{}, Steps: map[*Term]bool{}, Absent: map[*Term]bool{}}
				x.Rec[m] = r
			}
			r.add(r.Init, old, st)
			st.Forget(m)
			st.Mem[a] = m
			x.SymLoop[m] = key
			vary[a] = true
		}
		fr.Loops = append(fr.Loops, loopInst{header: to, mem: copyMem(st.Mem), facts: copyFacts(st.Facts), ivals: copyIvals(st.Ivals), vary: vary})
		fr.Prev, fr.Block, fr.Idx = from, to, 0
		l := x.loop(st, fr, to)
		x.loopSum(l)
		if x.Rule.LoopEnter != nil {
			x.Rule.LoopEnter(x, st, l)
		}
		return true
	}
	// back edge
	li := &fr.Loops[len(fr.Loops)-1]
	if li.header != to {
		x.undecided("irreducible loop in %s", fr.Fn)
		return false
	}
	for k, phi := range phis {
		t := mk("loopphi", x.site(fr, phi), phi.Type())
		if r := x.Rec[t]; r != nil {
			r.add(r.Steps, vals[k], st)
		}
	}
	lp := x.loop(st, fr, to)
	lp.Steps = map[*Term]*Term{}
	for k, phi := range phis {
		lp.Steps[fr.Env[phi]] = vals[k]
	}
	for a, v := range st.Mem {
		m := mk("mphi", x.siteLoop(fr, to)+"."+strconv.Itoa(a.ID), v.Typ, a)
		lp.Steps[m] = v
		x.SymLoop[m] = x.siteLoop(fr, to)
	}
	sum := x.loopSum(lp)
	sum.Iters = append(sum.Iters, Iter{Steps: lp.Steps, St: st.clone()})
	if x.Rule.BackEdge != nil {
		x.Rule.BackEdge(x, st, lp)
	}
	for k, phi := range phis {
		t := mk("loopphi", x.site(fr, phi), phi.Type())
		if fr.Env[phi] != t {
			// invariant: every iteration keeps the value
			fr.Env[phi] = vals[k]
			continue
		}
		if _, ok := x.Rec[t]; ok {
			iv, had := li.ivals[t]
			st.Forget(t)
			if had {
				st.Ivals[t] = iv
			}
		}
	}
	// memory
	newMem := copyMem(li.mem)
	vary := map[*Term]bool{}
	for a := range li.vary {
		vary[a] = true
	}
	for a, v := range st.Mem {
		if _, had := li.mem[a]; !had && !li.vary[a] && a.Op == "ia" && x.movesWith(a.Args[1], lp.Key) {
			continue // another element in every iteration
		}
		root := rootOf(a)
		if root.Op == "alloc" {
			if _, had := li.mem[a]; !had && !x.memUnder(li.mem, root) && !li.vary[a] && x.allocInLoop(root, meta, fr) {
				continue // allocated inside the iteration
			}
		}
		old, had := li.mem[a]
		if !had {
			old = st.baseIn(li.mem, a)
		}
		m := mk("mphi", x.siteLoop(fr, to)+"."+strconv.Itoa(a.ID), v.Typ, a)
		if v == old && !li.vary[a] {
			continue
		}
		r := x.Rec[m]
		if r == nil {
			r = &Recur{Init: map[*Term]bool{}, Steps: map[*Term]bool{}, Absent: map[*Term]bool{}}
			x.Rec[m] = r
		}
		if old != m {
			r.add(r.Init, old, st)
		}
		if v != m {
			r.add(r.Steps, v, st)
		}
		st.Forget(m)
		newMem[a] = m
		vary[a] = true
		if x.LoopVary[lp.Key] == nil {
			x.LoopVary[lp.Key] = map[*Term]bool{}
		}
		x.LoopVary[lp.Key][a] = true
	}
	li.vary = vary
	li.mem = newMem
	st.Mem = copyMem(newMem)
	// facts: keep those that held on entry and still hold
	nf := map[*Term]bool{}
	for f, v := range li.facts {
		if w, ok := st.Facts[f]; ok && w == v {
			nf[f] = v
		}
	}
	ni := map[*Term]ival{}
	for t, iv := range li.ivals {
		w, ok := st.Ivals[t]
		if !ok {
			continue
		}
		lo, hi := iv.lo, iv.hi
		if w.lo < lo {
			lo = -inf_
		}
		if w.hi > hi {
			hi = inf_
		}
		ni[t] = ival{lo, hi}
	}
	li.facts, li.ivals = nf, ni
	st.Facts, st.Ivals = copyFacts(nf), copyIvals(ni)
	fr.Prev, fr.Block, fr.Idx = from, to, 0
	return true
}

// movesWith: a numeric loop variable plus a constant which steps by a constant in
// every iteration.
func (x *Exec) movesWith(t *Term, key string) bool {
	if t.Op == "add" {
		if _, ok := t.Args[1].IsInt(); ok {
			t = t.Args[0]
		}
	}
	if t.Op != "loopphi" || x.SymLoop[t] != key {
		return false
	}
	r := x.Rec[t]
	if r == nil || len(r.Steps) != 1 {
		return false
	}
	for s := range r.Steps {
		if s.Op != "add" || s.Args[0] != t {
			return false
		}
		n, ok := s.Args[1].IsInt()
		return ok && n != 0
	}
	return false
}

const inf_ = inf

func (x *Exec) siteLoop(fr *Frame, h *ssa.BasicBlock) string {
	return uname(fr.Fn) + ".b" + strconv.Itoa(h.Index) + fr.Ctx
}

func (x *Exec) memUnder(m map[*Term]*Term, root *Term) bool {
	for a := range m {
		if a == root || underAddr(a, root) {
			return true
		}
	}
	return false
}

func (x *Exec) allocInLoop(root *Term, meta *loopMeta, fr *Frame) bool {
	for b := range meta.blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && root.Str == x.site(fr, al) {
				return true
			}
		}
	}
	// allocations of inlined callees
	return strings.Contains(root.Str, fr.Ctx) && len(root.Str) > 0 && !strings.HasSuffix(root.Str, "."+fr.Ctx) && strings.HasPrefix(suffixCtx(root.Str), fr.Ctx+"/")
}

func suffixCtx(s string) string {
	if i := strings.IndexByte(s, '/'); i >= 0 {
		return s[i:]
	}
	return ""
}

func (st *State) baseIn(mem map[*Term]*Term, a *Term) *Term {
	tmp := &State{Mem: mem, Facts: st.Facts, Ivals: st.Ivals}
	return tmp.load(a, a.Typ)
}

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func copyFacts(m map[*Term]bool) map[*Term]bool {
	n := make(map[*Term]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func copyIvals(m map[*Term]ival) map[*Term]ival {
	n := make(map[*Term]ival, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// invariantPhi: every back-edge operand is the phi itself or the same constant.
func (x *Exec) invariantPhi(phi *ssa.Phi, meta *loopMeta, init *Term) bool {
	seen := map[ssa.Value]bool{}
	var same func(e ssa.Value) bool
	same = func(e ssa.Value) bool {
		if e == phi || seen[e] {
			return true
		}
		seen[e] = true
		switch e := e.(type) {
		case *ssa.Const:
			return constTerm(e.Value, e.Type()) == init
		case *ssa.Phi:
			if !meta.blocks[e.Block()] {
				return false
			}
			for _, g := range e.Edges {
				if !same(g) {
					return false
				}
			}
			return true
		}
		return false
	}
	for k, p := range phi.Block().Preds {
		if meta.blocks[p] && !same(phi.Edges[k]) {
			return false
		}
	}
	return true
}

func (x *Exec) monotone(phi *ssa.Phi, meta *loopMeta) (up, down bool) {
	up, down = true, true
	for k, p := range phi.Block().Preds {
		if !meta.blocks[p] {
			continue
		}
		d, ok := stepOf(phi.Edges[k], phi)
		if !ok {
			return false, false
		}
		if d < 0 {
			up = false
		}
		if d > 0 {
			down = false
		}
	}
	return
}

func stepOf(v ssa.Value, phi *ssa.Phi) (int64, bool) {
	if v == phi {
		return 0, true
	}
	if b, ok := v.(*ssa.BinOp); ok && b.X == phi {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			n := c.Int64()
			if b.Op == token.ADD {
				return n, true
			}
			if b.Op == token.SUB {
				return -n, true
			}
		}
	}
	return 0, false
}

// loop describes the loop headed at h in the current frame.
func (x *Exec) loop(st *State, fr *Frame, h *ssa.BasicBlock) *Loop {
	l := &Loop{Header: h, Ctx: fr.Ctx, Phis: map[string]*Term{}, Key: x.siteLoop(fr, h)}
	meta := x.fn(fr.Fn).loops[h]
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		l.Phis[phi.Comment] = fr.Env[phi]
	}
	// counted loop over a sequence: header ends in If(lt(idx, len X))
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return l
	}
	exitsFalse := !meta.blocks[h.Succs[1]] && meta.blocks[h.Succs[0]]
	if ex, ok := ifi.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && exitsFalse {
			r := x.val(st, fr, nx.Iter)
			if r.Op == "range" {
				l.MapOver = r.Args[0]
				l.MapKey = mk("rangekey", x.site(fr, nx), nil, r.Args[0])
				if nx.IsString {
					l.MapOver, l.MapKey = nil, nil
				}
			}
		}
		return l
	}
	b, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || !exitsFalse {
		return l
	}
	idx, lim := b.X, b.Y
	op := b.Op
	if op == token.GTR {
		idx, lim, op = b.Y, b.X, token.LSS
	}
	if op == token.NEQ {
		// for len(rest) != 0
		op = token.LSS
		if isZeroConst(b.Y) {
			idx, lim = b.Y, b.X
		}
	}
	if op != token.LSS {
		return l
	}
	limT := x.valAt(st, fr, lim)
	idxT := x.valAt(st, fr, idx)
	if limT == nil || idxT == nil {
		return l
	}
	// rest-slicing loop: 0 < len(rest), rest = rest[1:]
	if n, ok := idxT.IsInt(); ok && n == 0 && limT.Op == "len" && limT.Args[0].Op == "loopphi" {
		p := limT.Args[0]
		r := x.Rec[p]
		if r == nil {
			return l
		}
		for _, in := range h.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && fr.Env[phi] == p {
				for k, pr := range h.Preds {
					if !meta.blocks[pr] {
						continue
					}
					sl, ok := phi.Edges[k].(*ssa.Slice)
					if !ok || sl.X != phi || sl.High != nil || sl.Low == nil {
						return l
					}
					if c, ok := sl.Low.(*ssa.Const); !ok || c.Int64() != 1 {
						return l
					}
				}
			}
		}
		for init := range r.Init {
			l.Over = init
		}
		if len(r.Init) != 1 {
			l.Over = nil
		}
		l.Index = mk("restidx", "", nil, p)
		return l
	}
	var phi *ssa.Phi
	off := int64(0)
	if p, ok := idx.(*ssa.Phi); ok {
		phi = p
	} else if bo, ok := idx.(*ssa.BinOp); ok {
		if p, ok := bo.X.(*ssa.Phi); ok {
			if d, ok := stepOf(bo, p); ok {
				phi, off = p, d
			}
		}
	}
	if phi == nil || phi.Block() != h {
		return l
	}
	for k, pr := range h.Preds {
		if meta.blocks[pr] {
			if d, ok := stepOf(phi.Edges[k], phi); !ok || d != 1 {
				return l
			}
		} else {
			c, ok := phi.Edges[k].(*ssa.Const)
			if !ok || c.Value == nil || c.Int64()+off < 0 {
				return l
			}
			if from := c.Int64() + off; from != 0 {
				if limT.Op == "len" {
					l.Seq, l.From, l.At = limT.Args[0], from, idxT
				}
				return l
			}
		}
	}
	l.Index = idxT
	if c, ok := lim.(*ssa.Call); ok && limT.Op != "len" {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			l.Over = x.valAt(st, fr, c.Call.Args[0])
		}
	}
	if limT.Op == "len" {
		l.Over = limT.Args[0]
	} else if l.Over != nil {
	} else if _, ok := limT.IsInt(); ok {
		l.Over = mk("ofLen", "", nil, limT)
	}
	return l
}

// fewTimes reports whether a loop goes over a list of few known elements, which
// is walked through element by element.
func (x *Exec) fewTimes(st *State, fr *Frame, meta *loopMeta, inf *fnInfo) bool {
	h := meta.header
	if len(inf.inLoop[h]) > 1 || len(h.Instrs) == 0 {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return false
	}
	if in, ok := b.Y.(ssa.Instruction); ok && meta.blocks[in.Block()] && in.Block() != h {
		return false
	}
	c, ok := b.Y.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return false
	}
	if meta.blocks[c.Block()] {
		// measured again and again: the list must be the same
		if in, ok := c.Call.Args[0].(ssa.Instruction); ok && meta.blocks[in.Block()] {
			return false
		}
	}
	lim := x.valAt(st, fr, b.Y)
	if lim == nil {
		return false
	}
	if n, ok := lim.IsInt(); !ok || n > 4 {
		return false
	}
	// a list filled place by place is understood as a loop
	for blk := range meta.blocks {
		for _, in := range blk.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.IndexAddr); ok {
					if _, ok := a.X.(*ssa.MakeSlice); ok {
						return false
					}
				}
			}
		}
	}
	return true
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

// valAt evaluates a value that may not be computed yet on this path.
func (x *Exec) valAt(st *State, fr *Frame, v ssa.Value) *Term {
	if t, ok := fr.Env[v]; ok {
		return t
	}
	switch i := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return x.val(st, fr, v)
	case *ssa.BinOp:
		a, b := x.valAt(st, fr, i.X), x.valAt(st, fr, i.Y)
		if a == nil || b == nil {
			return nil
		}
		return x.binop(i, a, b)
	case *ssa.Call:
		if bi, ok := i.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			a := x.valAt(st, fr, i.Call.Args[0])
			if a == nil {
				return nil
			}
			return Len(a)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			a := x.valAt(st, fr, i.X)
			if a == nil {
				return nil
			}
			return st.load(a, i.Type())
		}
	case *ssa.FieldAddr:
		a := x.valAt(st, fr, i.X)
		if a == nil {
			return nil
		}
		s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return mk("fa", s.Field(i.Field).Name(), s.Field(i.Field).Type(), a)
	case *ssa.Field:
		a := x.valAt(st, fr, i.X)
		if a == nil {
			return nil
		}
		s := i.X.Type().Underlying().(*types.Struct)
		return Field(a, s.Field(i.Field).Name(), s.Field(i.Field).Type())
	case *ssa.ChangeType:
		return x.valAt(st, fr, i.X)
	}
	return nil
}

func (x *Exec) ret(st *State, fr *Frame, res []*Term, pos token.Pos) bool {
	// leaving loops by return
	for n := len(fr.Loops) - 1; n >= 0; n-- {
		l := x.loop(st, fr, fr.Loops[n].header)
		sum := x.loopSum(l)
		sum.Exits = append(sum.Exits, Exit{St: st.clone(), Pos: pos, Ret: true})
		if x.Rule.LoopExit != nil {
			x.Rule.LoopExit(x, st, l, false, pos)
		}
	}
	if len(st.Frames) == 1 {
		if x.Rule.Return != nil {
			x.Rule.Return(x, st, res, pos)
		}
		return false
	}
	st.Frames = st.Frames[:len(st.Frames)-1]
	caller := st.top()
	if v, ok := fr.Call.(*ssa.Call); ok {
		switch len(res) {
		case 0:
			caller.Env[v] = mk("tuple", "", nil)
		case 1:
			caller.Env[v] = res[0]
		default:
			caller.Env[v] = mk("tuple", "", nil, res...)
		}
	}
	return true
}

func (x *Exec) loopSum(l *Loop) *LoopSum {
	s := x.LoopSums[l.Key]
	if s == nil {
		s = &LoopSum{}
		for _, in := range l.Header.Instrs {
			if in.Pos().IsValid() {
				s.Pos = in.Pos()
			}
		}
		x.LoopSums[l.Key] = s
	}
	s.Over, s.Index, s.MapOver, s.MapKey = l.Over, l.Index, l.MapOver, l.MapKey
	s.Seq, s.At, s.From = l.Seq, l.At, l.From
	return s
}

// On lists the iterations which can have run on a path which went through the
// loop and reached st: one which leaves a loop variable as no further iteration
// runs with, and as it is not on the path, ended the loop on another path.
func (s *LoopSum) On(st *State) []Iter {
	out := []Iter{}
	for _, it := range s.Iters {
		ended := false
		for p, v := range it.Steps {
			if p == v || p.Op != "loopphi" && p.Op != "mphi" || p.Typ == nil {
				continue
			}
			if ended = s.stops(it, p, v, st); ended {
				break
			}
		}
		if !ended {
			out = append(out, it)
		}
	}
	return out
}

func (s *LoopSum) stops(it Iter, p, v *Term, st *State) bool {
	conds := []*Term{Eq(p, Nil())}
	vals := []*Term{Eq(v, Nil())}
	if b, ok := p.Typ.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean == 0 {
			return false
		}
		conds, vals = []*Term{p}, []*Term{v}
	}
	for i, c := range conds {
		want := it.St.Decide(vals[i])
		if want < 0 || st.Decide(c) != 1-want {
			continue
		}
		all := true
		for _, o := range s.Iters {
			all = all && o.St.Decide(c) == 1-want
		}
		if all {
			return true
		}
	}
	return false
}
