package flow

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Item is one typestate entry: a kind plus terms.
type Item struct {
	Kind   string
	Terms  []*Term
	Sticky bool // survives re-execution of the sites it mentions
}

func (it Item) key() string {
	var b strings.Builder
	b.WriteString(it.Kind)
	for _, t := range it.Terms {
		b.WriteByte(':')
		b.WriteString(strconv.Itoa(t.ID))
	}
	return b.String()
}

type ival struct{ lo, hi int64 }

const inf = math.MaxInt64 / 4

// Frame is one activation.
type Frame struct {
	Fn     *ssa.Function
	Ctx    string // call string
	Call   ssa.CallInstruction
	Env    map[ssa.Value]*Term
	Block  *ssa.BasicBlock
	Idx    int
	Prev   *ssa.BasicBlock
	Defers []deferred
	Loops  []loopInst // active loops, outermost first
	// after running deferred calls: what to do
	running bool
	// unrolled counts the iterations of unrolled loops
	unrolled int
	// inlined recovered results
	onReturn func(x *Exec, st *State, res []*Term) []*Term
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

type loopInst struct {
	header *ssa.BasicBlock
	mem    map[*Term]*Term
	facts  map[*Term]bool
	ivals  map[*Term]ival
	vary   map[*Term]bool
}

// State is one abstract program state.
type State struct {
	Frames []*Frame
	Mem    map[*Term]*Term
	Facts  map[*Term]bool
	Ivals  map[*Term]ival
	Auto   map[string]Item
	Trace  *traceNode
}

type traceNode struct {
	prev *traceNode
	text string
	n    int
}

func (st *State) clone() *State {
	n := &State{Mem: make(map[*Term]*Term, len(st.Mem)), Facts: make(map[*Term]bool, len(st.Facts)), Ivals: make(map[*Term]ival, len(st.Ivals)), Auto: make(map[string]Item, len(st.Auto)), Trace: st.Trace}
	for k, v := range st.Mem {
		n.Mem[k] = v
	}
	for k, v := range st.Facts {
		n.Facts[k] = v
	}
	for k, v := range st.Ivals {
		n.Ivals[k] = v
	}
	for k, v := range st.Auto {
		n.Auto[k] = v
	}
	for _, f := range st.Frames {
		nf := *f
		nf.Env = make(map[ssa.Value]*Term, len(f.Env))
		for k, v := range f.Env {
			nf.Env[k] = v
		}
		nf.Defers = append([]deferred(nil), f.Defers...)
		nf.Loops = append([]loopInst(nil), f.Loops...)
		n.Frames = append(n.Frames, &nf)
	}
	return n
}

// Clone copies the state (for handlers that fork).
func (st *State) Clone() *State { return st.clone() }

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

// Top is the active frame.
func (st *State) Top() *Frame { return st.top() }

// --- typestate ---

// Add adds a typestate item.
func (st *State) Add(kind string, terms ...*Term) {
	it := Item{Kind: kind, Terms: terms}
	st.Auto[it.key()] = it
}

// AddSticky adds an item that survives loop re-execution.
func (st *State) AddSticky(kind string, terms ...*Term) {
	it := Item{Kind: kind, Terms: terms, Sticky: true}
	st.Auto[it.key()] = it
}

// Has tests for a typestate item.
func (st *State) Has(kind string, terms ...*Term) bool {
	_, ok := st.Auto[Item{Kind: kind, Terms: terms}.key()]
	return ok
}

// Del removes a typestate item.
func (st *State) Del(kind string, terms ...*Term) {
	delete(st.Auto, Item{Kind: kind, Terms: terms}.key())
}

// Items lists items of a kind.
func (st *State) Items(kind string) []Item {
	out := []Item{}
	for _, it := range st.Auto {
		if it.Kind == kind {
			out = append(out, it)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// Count counts items of a kind.
func (st *State) Count(kind string) int { return len(st.Items(kind)) }

// --- facts ---

func (st *State) interval(t *Term) ival {
	if n, ok := t.IsInt(); ok {
		return ival{n, n}
	}
	iv, ok := st.Ivals[t]
	if !ok {
		iv = ival{-inf, inf}
		if t.Op == "len" || t.Op == "cap" {
			iv.lo = 0
		}
	}
	switch t.Op {
	case "add":
		if c, ok := t.Args[1].IsInt(); ok {
			b := st.interval(t.Args[0])
			iv = meet(iv, ival{sat(b.lo + c), sat(b.hi + c)})
		}
	case "len":
		if b, ok := st.Facts[Eq(t.Args[0], Nil())]; ok && b {
			iv = meet(iv, ival{0, 0})
		}
		if t.Args[0].Op == "cat" {
			n := int64(0)
			for _, p := range t.Args[0].Args {
				if p.Op == "one" {
					n++
				}
			}
			if iv.lo < n {
				iv.lo = n
			}
		}
	}
	return iv
}

func sat(x int64) int64 {
	if x > inf {
		return inf
	}
	if x < -inf {
		return -inf
	}
	return x
}

func meet(a, b ival) ival {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}

// Decide evaluates a boolean term under the facts: 1 true, 0 false, -1 unknown.
func (st *State) Decide(c *Term) int {
	if b, ok := c.IsBool(); ok {
		return b2i(b)
	}
	if c.Op == "not" {
		r := st.Decide(c.Args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if b, ok := st.Facts[c]; ok {
		return b2i(b)
	}
	switch c.Op {
	case "eq":
		x, k := c.Args[0], c.Args[1]
		if isConstish(k) {
			// known equal to a different constant, or known type
			for f, v := range st.Facts {
				if !v {
					continue
				}
				if f.Op == "eq" && f.Args[0] == x && isConstish(f.Args[1]) && f.Args[1] != k {
					return 0
				}
				if k.IsNil() && f.Op == "typeis" && f.Args[0] == x {
					return 0
				}
				if k.IsNil() && f.Op == "haskey" && false {
					return 0
				}
			}
			if k.IsNil() && isSliceOrMap(x.Typ) {
				iv := st.interval(Len(x))
				if iv.lo > 0 {
					return 0
				}
			}
		}
		a, b := st.interval(x), st.interval(k)
		if a.lo > b.hi || b.lo > a.hi {
			return 0
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo && a.lo > -inf && a.lo < inf {
			return 1
		}
		// x == y decided through x == c, y == c
	case "lt":
		a, b := st.interval(c.Args[0]), st.interval(c.Args[1])
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return 0
		}
	case "typeis":
		x := c.Args[0]
		if b, ok := st.Facts[Eq(x, Nil())]; ok && b {
			return 0
		}
		it, isI := c.Typ.Underlying().(*types.Interface)
		for f, v := range st.Facts {
			if f.Op == "typeis" && f.Args[0] == x && v {
				if _, fi := f.Typ.Underlying().(*types.Interface); fi {
					continue
				}
				if isI {
					return b2i(types.Implements(f.Typ, it))
				}
				return b2i(types.Identical(f.Typ, c.Typ))
			}
		}
	case "and":
		a, b := st.Decide(c.Args[0]), st.Decide(c.Args[1])
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case "or":
		a, b := st.Decide(c.Args[0]), st.Decide(c.Args[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	}
	return -1
}

func isSliceOrMap(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Assume adds a fact; false means the state became infeasible.
func (st *State) Assume(c *Term, val bool) bool {
	if r := st.Decide(c); r >= 0 {
		return r == b2i(val)
	}
	if c.Op == "not" {
		return st.Assume(c.Args[0], !val)
	}
	if c.Op == "and" && val || c.Op == "or" && !val {
		return st.Assume(c.Args[0], val) && st.Assume(c.Args[1], val)
	}
	st.Facts[c] = val
	set := func(t *Term, iv ival) bool {
		if _, ok := t.IsInt(); ok {
			return true
		}
		if t.Op == "add" {
			if k, ok := t.Args[1].IsInt(); ok {
				b := meet(st.interval(t.Args[0]), ival{sat(iv.lo - k), sat(iv.hi - k)})
				st.Ivals[t.Args[0]] = b
				if b.lo > b.hi {
					return false
				}
			}
		}
		n := meet(st.interval(t), iv)
		st.Ivals[t] = n
		return n.lo <= n.hi
	}
	switch c.Op {
	case "lt":
		a, b := c.Args[0], c.Args[1]
		ia, ib := st.interval(a), st.interval(b)
		if val {
			return set(a, ival{-inf, sat(ib.hi - 1)}) && set(b, ival{sat(ia.lo + 1), inf})
		}
		return set(a, ival{ib.lo, inf}) && set(b, ival{-inf, ia.hi})
	case "eq":
		x, k := c.Args[0], c.Args[1]
		if n, ok := k.IsInt(); ok {
			iv := st.interval(x)
			if val {
				return set(x, ival{n, n})
			}
			if iv.lo == n {
				iv.lo++
			}
			if iv.hi == n {
				iv.hi--
			}
			return set(x, iv)
		}
		if k.IsNil() && val && isSliceOrMap(x.Typ) {
			return set(Len(x), ival{0, 0})
		}
	case "typeis":
		if val {
			e := Eq(c.Args[0], Nil())
			if _, ok := e.IsBool(); !ok {
				st.Facts[e] = false
			}
		}
	}
	return true
}

// IsNil decides nil-ness: 1 nil, 0 non-nil, -1 unknown.
func (st *State) IsNil(t *Term) int { return st.Decide(Eq(t, Nil())) }

// Forget drops facts and non-sticky typestate about a re-executed symbol.
func (st *State) Forget(t *Term) {
	for f := range st.Facts {
		if f.Mentions(t) {
			delete(st.Facts, f)
		}
	}
	for f := range st.Ivals {
		if f.Mentions(t) {
			delete(st.Ivals, f)
		}
	}
	for k, it := range st.Auto {
		if it.Sticky {
			continue
		}
		for _, x := range it.Terms {
			if x.Mentions(t) {
				delete(st.Auto, k)
				break
			}
		}
	}
}

// --- memory ---

// Content is the value initially stored at an address.
func (st *State) load(addr *Term, typ types.Type) *Term {
	base := st.base(addr, typ)
	// overlay deeper entries
	var fields map[string]*Term
	for a := range st.Mem {
		if a != addr && a.Op == "fa" && underAddr(a, addr) {
			// direct child along the path
			c := a
			for c.Args[0] != addr {
				c = c.Args[0]
			}
			if c.Op != "fa" {
				continue
			}
			if fields == nil {
				fields = map[string]*Term{}
			}
			if _, ok := fields[c.Str]; !ok {
				fields[c.Str] = st.load(c, c.Typ)
			}
		}
	}
	if fields != nil {
		return upd(base, fields)
	}
	return base
}

func underAddr(a, p *Term) bool {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
		if a == p {
			return true
		}
	}
	return false
}

func (st *State) base(addr *Term, typ types.Type) *Term {
	if v, ok := st.Mem[addr]; ok {
		return v
	}
	switch addr.Op {
	case "fa":
		p := addr.Args[0]
		switch p.Op {
		case "fa", "ia", "gaddr", "alloc":
			return Field(st.base(p, nil), addr.Str, typ)
		}
		return Field(p, addr.Str, typ)
	case "ia":
		p := addr.Args[0]
		switch p.Op {
		case "fa", "gaddr", "alloc":
			return Elem(st.base(p, nil), addr.Args[1], typ)
		}
		return Elem(p, addr.Args[1], typ)
	case "gaddr":
		return mk("global", addr.Str, typ)
	case "alloc":
		if typ == nil {
			typ = addr.Typ
		}
		return ZeroOf(typ)
	case "nil":
		return mk("opaque", "nilderef", typ)
	}
	return mk("deref", "", typ, addr)
}

// Store writes memory.
func (st *State) store(addr, v *Term) {
	for a := range st.Mem {
		if a != addr && underAddr(a, addr) {
			delete(st.Mem, a)
		}
	}
	// storing back the initial value keeps memory canonical
	st.Mem[addr] = v
}

// Load reads memory.
func (st *State) Load(addr *Term, typ types.Type) *Term { return st.load(addr, typ) }

// StoreTo writes memory.
func (st *State) StoreTo(addr, v *Term) { st.store(addr, v) }

// LoadField reads a field through a pointer term.
func (st *State) LoadField(ptr *Term, name string, typ types.Type) *Term {
	return st.load(FieldAddr(ptr, name, typ), typ)
}

// FieldAddr is the address of a field.
func FieldAddr(p *Term, name string, typ types.Type) *Term { return mk("fa", name, typ, p) }

func (st *State) key() string {
	var b strings.Builder
	for _, f := range st.Frames {
		b.WriteString(f.Fn.String())
		b.WriteByte('/')
		b.WriteString(f.Ctx)
		b.WriteByte('@')
		b.WriteString(strconv.Itoa(f.Block.Index))
		b.WriteByte('.')
		b.WriteString(strconv.Itoa(f.Idx))
		b.WriteByte('{')
		ks := make([]string, 0, len(f.Env))
		for v, t := range f.Env {
			ks = append(ks, v.Name()+"="+strconv.Itoa(t.ID))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		b.WriteByte('}')
		for _, d := range f.Defers {
			b.WriteString("d")
			b.WriteString(strconv.Itoa(int(d.instr.Pos())))
			for _, a := range d.args {
				b.WriteString("," + strconv.Itoa(a.ID))
			}
		}
		for _, l := range f.Loops {
			b.WriteString("L" + strconv.Itoa(l.header.Index))
			ks := []string{}
			for a := range l.vary {
				ks = append(ks, strconv.Itoa(a.ID))
			}
			sort.Strings(ks)
			b.WriteString(strings.Join(ks, ";"))
		}
		if f.running {
			b.WriteByte('R')
		}
	}
	b.WriteByte('M')
	ks := make([]string, 0, len(st.Mem))
	for a, v := range st.Mem {
		ks = append(ks, strconv.Itoa(a.ID)+"="+strconv.Itoa(v.ID))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	b.WriteByte('F')
	ks = ks[:0]
	for a, v := range st.Facts {
		ks = append(ks, strconv.Itoa(a.ID)+strconv.FormatBool(v)[:1])
	}
	for a, v := range st.Ivals {
		ks = append(ks, strconv.Itoa(a.ID)+"["+strconv.FormatInt(v.lo, 10)+"."+strconv.FormatInt(v.hi, 10))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	b.WriteByte('A')
	ks = ks[:0]
	for k := range st.Auto {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	return b.String()
}

// Lo and Hi are the bounds of an interval.
func (i ival) Lo() int64 { return i.lo }
func (i ival) Hi() int64 { return i.hi }
