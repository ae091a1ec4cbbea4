// Package flow is a path-sensitive, interprocedural dataflow engine over
// go/ssa. It tracks abstract values ("terms": access paths, constants,
// allocation sites, opaque call results), a small abstract memory, branch facts
// over a finite predicate domain (nil-ness, equality with constants, dynamic
// type, integer intervals, boolean atoms) and a rule-defined typestate, until a
// fixed point. Nothing is executed and no solver is involved: loops are widened
// to loop-variant symbols and recursion is cut at the repeated call.
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is an interned abstract value.
type Term struct {
	Op   string
	Args []*Term
	Str  string
	Typ  types.Type
	ID   int
	site bool // mentions a site-specific (re-executable) symbol
}

type interner struct {
	tab map[string]*Term
	all []*Term
}

var in = &interner{tab: map[string]*Term{}}

// Reset clears the interner (between independent analyses).
func Reset() { in = &interner{tab: map[string]*Term{}} }

var siteOps = map[string]bool{"alloc": true, "call": true, "loopphi": true, "mphi": true, "make": true, "opaque": true, "rangekey": true}

func mk(op, str string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	switch op {
	case "iface", "ta", "typeis", "zero", "conv", "param", "freevar":
		b.WriteByte('#')
		b.WriteString(TypeKey(typ))
	}
	k := b.String()
	if t, ok := in.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{Op: op, Str: str, Typ: typ, Args: args, ID: len(in.all)}
	t.site = siteOps[op]
	for _, a := range args {
		t.site = t.site || a.site
	}
	in.tab[k] = t
	in.all = append(in.all, t)
	return t
}

// TypeKey is a canonical type string.
func TypeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

// String prints the term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case "const":
		return t.Str
	case "nil":
		return "nil"
	case "param", "freevar":
		return t.Str
	case "global", "func":
		return short(t.Str)
	case "gaddr":
		return "&" + short(t.Str)
	case "field":
		return a(0) + "." + t.Str
	case "fa":
		return "&" + a(0) + "." + t.Str
	case "ia":
		return "&" + a(0) + "[" + a(1) + "]"
	case "elem", "lookup":
		return a(0) + "[" + a(1) + "]"
	case "haskey":
		return "has(" + a(0) + "[" + a(1) + "])"
	case "len", "cap", "not":
		return t.Op + "(" + a(0) + ")"
	case "eq":
		return a(0) + "==" + a(1)
	case "lt":
		return a(0) + "<" + a(1)
	case "iface":
		return a(0)
	case "ta":
		return a(0) + ".(" + short(TypeKey(t.Typ)) + ")"
	case "typeis":
		return a(0) + " is " + short(TypeKey(t.Typ))
	case "alloc":
		return "new@" + t.Str
	case "loopphi", "mphi":
		return "loop@" + t.Str
	case "result":
		return a(0) + "#" + t.Str
	}
	parts := []string{}
	for i := range t.Args {
		parts = append(parts, a(i))
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + short(t.Str)
	}
	return s + "(" + strings.Join(parts, ", ") + ")"
}

func short(s string) string {
	s = strings.ReplaceAll(s, "github.com/vito/booklit/", "")
	return strings.ReplaceAll(s, "github.com/vito/", "")
}

// Mentions reports whether sub occurs in t.
func (t *Term) Mentions(sub *Term) bool {
	if t == sub {
		return true
	}
	if sub.site && !t.site {
		return false
	}
	for _, a := range t.Args {
		if a.Mentions(sub) {
			return true
		}
	}
	return false
}

// Walk calls f for t and its subterms.
func (t *Term) Walk(f func(*Term)) {
	f(t)
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// Has reports whether any subterm satisfies f.
func (t *Term) Has(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Has(f) {
			return true
		}
	}
	return false
}

// Nil is the nil value.
func Nil() *Term { return mk("nil", "", nil) }

// Int is an integer constant.
func Int(i int64) *Term { return mk("const", strconv.FormatInt(i, 10), types.Typ[types.Int]) }

// Bool is a boolean constant.
func Bool(b bool) *Term { return mk("const", strconv.FormatBool(b), types.Typ[types.Bool]) }

// Str is a string constant.
func StrConst(s string) *Term { return mk("const", strconv.Quote(s), types.Typ[types.String]) }

// Sym makes a named symbol.
func Sym(op, name string, typ types.Type, args ...*Term) *Term { return mk(op, name, typ, args...) }

// IsInt returns the constant integer value.
func (t *Term) IsInt() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	i, err := strconv.ParseInt(t.Str, 10, 64)
	return i, err == nil
}

// IsBool returns the constant boolean value.
func (t *Term) IsBool() (bool, bool) {
	if t.Op == "const" && (t.Str == "true" || t.Str == "false") {
		return t.Str == "true", true
	}
	return false, false
}

// IsStr returns the constant string value.
func (t *Term) IsStr() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Str, `"`) {
		s, err := strconv.Unquote(t.Str)
		return s, err == nil
	}
	return "", false
}

// IsNil reports whether t is the nil constant.
func (t *Term) IsNil() bool { return t.Op == "nil" }

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return ZeroOf(typ)
	}
	switch v.Kind() {
	case constant.String:
		return mk("const", strconv.Quote(constant.StringVal(v)), typ)
	default:
		return mk("const", v.ExactString(), typ)
	}
}

// ConstOf is a constant.
func ConstOf(v constant.Value, typ types.Type) *Term { return constTerm(v, typ) }

// ZeroOf is the zero value of a type.
func ZeroOf(t types.Type) *Term {
	if t == nil {
		return Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return StrConst("")
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return Nil()
	case *types.Struct, *types.Array:
		return mk("zero", "", t)
	}
	return Nil()
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	if s, ok := u.(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// Field projects a field of a struct value or of what a pointer points to.
func Field(x *Term, name string, typ types.Type) *Term {
	switch x.Op {
	case "upd":
		for i, f := range strings.Split(x.Str, ",") {
			if f == name {
				return x.Args[i+1]
			}
		}
		return Field(x.Args[0], name, typ)
	case "zero":
		if ft := fieldType(x.Typ, name); ft != nil {
			return ZeroOf(ft)
		}
	case "deref":
		return mk("field", name, typ, x.Args[0])
	}
	return mk("field", name, typ, x)
}

// With is a struct value with one field set.
func With(base *Term, field string, v *Term) *Term {
	return upd(base, map[string]*Term{field: v})
}

// upd overlays fields on a struct value, in canonical form.
func upd(base *Term, fields map[string]*Term) *Term {
	if base.Op == "upd" {
		m := map[string]*Term{}
		for i, f := range strings.Split(base.Str, ",") {
			m[f] = base.Args[i+1]
		}
		for f, v := range fields {
			m[f] = v
		}
		return upd(base.Args[0], m)
	}
	names := []string{}
	for f, v := range fields {
		if Field(base, f, v.Typ) == v {
			continue
		}
		names = append(names, f)
	}
	if len(names) == 0 {
		return base
	}
	sort.Strings(names)
	args := []*Term{base}
	for _, f := range names {
		args = append(args, fields[f])
	}
	return mk("upd", strings.Join(names, ","), base.Typ, args...)
}

// Elem projects an element.
func Elem(x, i *Term, typ types.Type) *Term {
	if x.Op == "cat" {
		if n, ok := i.IsInt(); ok {
			k := int64(0)
			for _, p := range x.Args {
				if p.Op == "spread" {
					break
				}
				if k == n {
					return p.Args[0]
				}
				k++
			}
		}
	}
	if x.Op == "slice" { // x[lo:hi][i] => x[lo+i]
		if lo, ok := x.Args[1].IsInt(); ok {
			if n, ok := i.IsInt(); ok {
				return Elem(x.Args[0], Int(lo+n), typ)
			}
			return Elem(x.Args[0], Add(i, Int(lo)), typ)
		}
	}
	return mk("elem", "", typ, x, i)
}

// Len is the length of a string, slice or map.
func Len(x *Term) *Term {
	switch x.Op {
	case "nil":
		return Int(0)
	case "const":
		if s, ok := x.IsStr(); ok {
			return Int(int64(len(s)))
		}
	case "cat":
		n := int64(0)
		for _, p := range x.Args {
			if p.Op == "spread" {
				return mk("len", "", types.Typ[types.Int], x)
			}
			n++
		}
		return Int(n)
	case "iface":
		return Len(x.Args[0])
	case "conv":
		if !recounts(x.Typ) && !recounts(x.Args[0].Typ) {
			return Len(x.Args[0])
		}
	case "slice":
		if lo, ok := x.Args[1].IsInt(); ok && lo == 0 && x.Args[2].IsNil() {
			return Len(x.Args[0])
		}
		if x.Args[2].Op == "len" && x.Args[2].Args[0] == x.Args[0] {
			if lo, ok := x.Args[1].IsInt(); ok && lo == 0 {
				return x.Args[2]
			}
		}
	}
	return mk("len", "", types.Typ[types.Int], x)
}

// recounts reports whether converting from or to a type changes the length:
// characters, unlike bytes.
func recounts(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int32
	case *types.Basic:
		return u.Info()&types.IsInteger != 0
	}
	return false
}

// Cat concatenates list parts ("one" / "spread" terms or whole lists).
func Cat(typ types.Type, parts ...*Term) *Term {
	out := []*Term{}
	var add func(p *Term)
	add = func(p *Term) {
		switch p.Op {
		case "one":
			out = append(out, p)
		case "nil":
		case "cat":
			for _, q := range p.Args {
				add(q)
			}
		case "spread":
			if p.Args[0].Op == "cat" || p.Args[0].Op == "nil" {
				add(p.Args[0])
			} else {
				out = append(out, p)
			}
		default:
			out = append(out, mk("spread", "", nil, p))
		}
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 1 && out[0].Op == "spread" {
		return out[0].Args[0]
	}
	return mk("cat", "", typ, out...)
}

// One wraps a single list element.
func One(e *Term) *Term { return mk("one", "", nil, e) }

// StrCat concatenates strings.
func StrCat(parts ...*Term) *Term {
	out := []*Term{}
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == "strcat" {
			for _, q := range p.Args {
				add(q)
			}
			return
		}
		if s, ok := p.IsStr(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if prev, ok := out[len(out)-1].IsStr(); ok {
					out[len(out)-1] = StrConst(prev + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(out) == 0 {
		return StrConst("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("strcat", "", types.Typ[types.String], out...)
}

// Not negates a boolean term.
func Not(t *Term) *Term {
	if b, ok := t.IsBool(); ok {
		return Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

// sentinels are errors of the standard library which are never reassigned.
var sentinels = map[string]bool{
	"io.EOF": true, "io.ErrUnexpectedEOF": true, "io.ErrShortWrite": true, "io.ErrClosedPipe": true, "io.ErrNoProgress": true,
	"os.ErrNotExist": true, "os.ErrExist": true, "os.ErrPermission": true, "os.ErrInvalid": true, "os.ErrClosed": true,
	"io/fs.ErrNotExist": true, "io/fs.ErrExist": true, "io/fs.ErrPermission": true, "io/fs.ErrInvalid": true, "io/fs.SkipDir": true, "io/fs.SkipAll": true,
	"bufio.ErrTooLong": true, "bufio.ErrBufferFull": true, "net/http.ErrServerClosed": true, "net/http.ErrAbortHandler": true, "flag.ErrHelp": true,
}

func nonNilTerm(t *Term) bool {
	switch t.Op {
	case "iface", "alloc", "fa", "ia", "gaddr", "func", "closure", "make", "upd", "zero", "strcat":
		return true
	case "const":
		return true
	case "nonnil":
		return true
	case "global":
		return sentinels[t.Str]
	case "cat":
		return len(t.Args) > 0
	}
	return false
}

// Eq compares two terms.
func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return Bool(a.Str == b.Str)
	}
	if a.IsNil() && nonNilTerm(b) || b.IsNil() && nonNilTerm(a) {
		return Bool(false)
	}
	if a.Op == "iface" && b.Op == "iface" {
		if TypeKey(a.Typ) != TypeKey(b.Typ) {
			return Bool(false)
		}
		return Eq(a.Args[0], b.Args[0])
	}
	// len(string)==0 <=> string==""
	if n, ok := b.IsInt(); ok && n == 0 && a.Op == "len" && isString(a.Args[0].Typ) {
		return Eq(a.Args[0], StrConst(""))
	}
	if n, ok := a.IsInt(); ok && n == 0 && b.Op == "len" && isString(b.Args[0].Typ) {
		return Eq(b.Args[0], StrConst(""))
	}
	if bb, ok := b.IsBool(); ok {
		if bb {
			return a
		}
		return Not(a)
	}
	if bb, ok := a.IsBool(); ok {
		if bb {
			return b
		}
		return Not(b)
	}
	if s, ok := b.IsStr(); ok && s == "" && a.Op == "strcat" {
		for _, p := range a.Args {
			if c, ok := p.IsStr(); ok && c != "" {
				return Bool(false)
			}
		}
	}
	if isConstish(a) || (!isConstish(b) && a.ID > b.ID) {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func isConstish(t *Term) bool { return t.Op == "const" || t.Op == "nil" }

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Lt compares integers.
func Lt(a, b *Term) *Term {
	x, ok1 := a.IsInt()
	y, ok2 := b.IsInt()
	if ok1 && ok2 {
		return Bool(x < y)
	}
	if a == b {
		return Bool(false)
	}
	// 0 < len(string) <=> string != ""
	if ok1 && x == 0 && b.Op == "len" && isString(b.Args[0].Typ) {
		return Not(Eq(b.Args[0], StrConst("")))
	}
	if ok2 && y == 1 && a.Op == "len" && isString(a.Args[0].Typ) {
		return Eq(a.Args[0], StrConst(""))
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// Add adds integers.
func Add(a, b *Term) *Term {
	x, ok1 := a.IsInt()
	y, ok2 := b.IsInt()
	if ok1 && ok2 {
		return Int(x + y)
	}
	if ok1 {
		a, b, x, y, ok1, ok2 = b, a, y, x, ok2, ok1
	}
	if ok2 {
		if y == 0 {
			return a
		}
		if a.Op == "add" {
			if z, ok := a.Args[1].IsInt(); ok {
				return Add(a.Args[0], Int(z+y))
			}
		}
	} else if a.ID > b.ID {
		a, b = b, a
	}
	return mk("add", "", types.Typ[types.Int], a, b)
}

// Iface boxes a value into an interface.
func Iface(t types.Type, x *Term) *Term { return mk("iface", "", t, x) }

// TypeIs is the dynamic type test.
func TypeIs(x *Term, t types.Type) *Term {
	if x.IsNil() {
		return Bool(false)
	}
	if x.Op == "iface" {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return Bool(types.Implements(x.Typ, it))
		}
		return Bool(types.Identical(x.Typ, t))
	}
	return mk("typeis", "", t, x)
}

// TypeAssert extracts a dynamic value.
func TypeAssert(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return x
		}
		return x.Args[0]
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		// narrowing an interface keeps the value
		return x
	}
	return mk("ta", "", t, x)
}

var _ = fmt.Sprint

// Subst replaces subterms and simplifies again.
func (t *Term) Subst(m map[*Term]*Term) *Term {
	return t.subst(m, map[*Term]*Term{})
}

func (t *Term) subst(m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = a.subst(m, memo)
		same = same && args[i] == a
	}
	r := t
	if !same {
		switch t.Op {
		case "field":
			r = Field(args[0], t.Str, t.Typ)
		case "elem":
			r = Elem(args[0], args[1], t.Typ)
		case "len":
			r = Len(args[0])
		case "eq":
			r = Eq(args[0], args[1])
		case "lt":
			r = Lt(args[0], args[1])
		case "not":
			r = Not(args[0])
		case "add":
			r = Add(args[0], args[1])
		case "strcat":
			r = StrCat(args...)
		case "ta":
			r = TypeAssert(args[0], t.Typ)
		case "typeis":
			r = TypeIs(args[0], t.Typ)
		default:
			r = mk(t.Op, t.Str, t.Typ, args...)
		}
	}
	memo[t] = r
	return r
}

// SubstState is the state with subterms replaced in its facts; nil if that is
// contradictory.
func (st *State) SubstState(m map[*Term]*Term) *State {
	n := st.clone()
	n.Facts, n.Ivals = map[*Term]bool{}, map[*Term]ival{}
	for f, v := range st.Facts {
		if !n.Assume(f.Subst(m), v) {
			return nil
		}
	}
	for t, iv := range st.Ivals {
		k := t.Subst(m)
		if _, ok := n.Ivals[k]; !ok {
			n.Ivals[k] = iv
		}
	}
	n.Mem = map[*Term]*Term{}
	for a, v := range st.Mem {
		n.Mem[a.Subst(m)] = v.Subst(m)
	}
	return n
}
