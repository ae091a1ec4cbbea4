package flow

import (
	"go/token"
	"go/types"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FuncName is the canonical name of a function: pkg.F or (pkg.T).M / (*pkg.T).M.
func FuncName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (x *Exec) callEvent(st *State, fr *Frame, g *ssa.Go) {
	c := x.resolve(st, fr, g, &g.Call, nil, nil)
	c.Go = true
	if x.Rule.Call != nil {
		x.Rule.Call(x, st, c)
	}
}

func (x *Exec) resolve(st *State, fr *Frame, ins ssa.CallInstruction, cc *ssa.CallCommon, fnT *Term, args []*Term) *CallInfo {
	c := &CallInfo{Instr: ins, Pos: ins.Pos(), Result: cc.Signature().Results(), Ctx: fr.Ctx}
	if !c.Pos.IsValid() {
		c.Pos = cc.Pos()
	}
	if cc.IsInvoke() {
		if args == nil {
			args = append(args, x.val(st, fr, cc.Value))
			for _, a := range cc.Args {
				args = append(args, x.val(st, fr, a))
			}
		}
		c.Method = cc.Method
		c.Args = args
		recv := args[0]
		c.Name = "invoke:" + cc.Method.FullName()
		// dynamic type known?
		var dyn types.Type
		var val *Term
		if recv.Op == "iface" {
			dyn, val = recv.Typ, recv.Args[0]
		} else {
			for f, v := range st.Facts {
				if v && f.Op == "typeis" && f.Args[0] == recv {
					if _, ok := f.Typ.Underlying().(*types.Interface); !ok {
						dyn, val = f.Typ, TypeAssert(recv, f.Typ)
					}
				}
			}
		}
		if dyn != nil {
			if sel := types.NewMethodSet(dyn).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel == nil {
				// the path is infeasible or the type is unrelated
			} else if m := fr.Fn.Prog.MethodValue(sel); m != nil {
				c.Callee = m
				c.Args = append([]*Term{val}, args[1:]...)
				c.Name = FuncName(m)
			}
		}
		return c
	}
	if fnT == nil {
		fnT = x.val(st, fr, cc.Value)
	}
	if args == nil {
		for _, a := range cc.Args {
			args = append(args, x.val(st, fr, a))
		}
	}
	c.Args = args
	c.Func = fnT
	if s := cc.StaticCallee(); s != nil {
		c.Callee = s
		c.Name = FuncName(s)
		return c
	}
	switch fnT.Op {
	case "builtin":
		c.Name = "builtin:" + fnT.Str
	case "func":
		if f := FuncByName(fr.Fn.Prog, fnT.Str); f != nil {
			c.Callee = f
			c.Name = FuncName(f)
		}
	case "closure":
		if f := closures[fnT.Str]; f != nil {
			c.Callee = f
			c.Name = FuncName(f)
		}
	default:
		c.Name = "dynamic"
	}
	return c
}

var funcCache = map[string]*ssa.Function{}

// FuncByName finds a package-level function by its canonical name.
func FuncByName(prog *ssa.Program, name string) *ssa.Function {
	if f, ok := funcCache[name]; ok {
		return f
	}
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				funcCache[f.String()] = f
				for _, a := range f.AnonFuncs {
					funcCache[a.String()] = a
				}
			}
		}
	}
	return funcCache[name]
}

// OpaqueResult makes the result term of a call that is not followed.
func (x *Exec) OpaqueResult(st *State, c *CallInfo) *Term {
	site := ""
	if v, ok := c.Instr.(ssa.Value); ok {
		site = uname(v.Parent()) + "." + v.Name() + c.Ctx
	} else {
		site = uname(c.Instr.Parent()) + "@" + strconv.Itoa(int(c.Pos)) + c.Ctx
	}
	var typ types.Type = c.Result
	if t, ok := c.Result.(*types.Tuple); ok && t.Len() == 1 {
		typ = t.At(0).Type()
	}
	r := mk("call", c.Name+"@"+site, typ, c.Args...)
	st.Forget(r)
	// results of earlier executions of this site with other arguments
	return r
}

// PureResult makes a site-independent result: equal arguments, equal result.
func PureResult(c *CallInfo) *Term {
	var typ types.Type = c.Result
	if t, ok := c.Result.(*types.Tuple); ok && t.Len() == 1 {
		typ = t.At(0).Type()
	}
	return mk("pure", c.Name, typ, c.Args...)
}

// CallName returns the callee name of a call/pure term.
func CallName(t *Term) string {
	if t.Op == "pure" {
		return t.Str
	}
	if t.Op == "call" {
		if i := strings.IndexByte(t.Str, '@'); i >= 0 {
			return t.Str[:i]
		}
	}
	return ""
}

var purePkgs = []string{"strings.", "path/filepath.", "path.", "strconv.", "unicode.", "unicode/utf8.", "(*regexp.Regexp).", "regexp.", "html.", "html/template.HTMLEscapeString", "net/url.", "reflect.", "(reflect.", "(*reflect.", "invoke:(reflect.", "sort.Search", "errors.Is", "golang.org/x/text", "(golang.org/x/text", "math."}

func isPure(name string) bool {
	if strings.HasPrefix(name, "reflect.New") || strings.Contains(name, "reflect.Value).Call") || strings.Contains(name, "reflect.Value).Set") {
		return name == "reflect.New"
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) call(st *State, fr *Frame, ins ssa.CallInstruction, cc *ssa.CallCommon, fnT *Term, args []*Term, isDefer bool) bool {
	c := x.resolve(st, fr, ins, cc, fnT, args)
	c.Defer = isDefer
	x.Calls[c.Pos] = true
	ret := func(s *State, t *Term) {
		if v, ok := ins.(*ssa.Call); ok {
			if t == nil {
				t = x.OpaqueResult(s, c)
			}
			s.top().Env[v] = t
		}
	}
	if x.Rule.Call != nil {
		if outs, ok := x.Rule.Call(x, st, c); ok {
			if len(outs) == 0 {
				return false
			}
			for _, o := range outs[1:] {
				ret(o.St, o.Res)
				x.push(o.St)
			}
			ret(outs[0].St, outs[0].Res)
			if outs[0].St != st {
				x.push(outs[0].St)
				return false
			}
			return true
		}
	}
	if t, ok := x.intrinsic(st, fr, c); ok {
		ret(st, t)
		return true
	}
	if c.Callee != nil && len(c.Callee.Blocks) > 0 && x.inlineOK(st, c.Callee) {
		x.enter(st, fr, c, fnT)
		return true
	}
	if noReturn[c.Name] {
		if x.Rule.Panic != nil {
			x.Rule.Panic(x, st, c.Pos)
		}
		return false
	}
	if isPure(c.Name) {
		ret(st, PureResult(c))
		return true
	}
	x.changed(st, c)
	ret(st, nil)
	return true
}

// changed: visiting what is not known may have assigned to the visitor.
func (x *Exec) changed(st *State, c *CallInfo) {
	if !strings.HasPrefix(c.Name, "invoke:") || !strings.HasSuffix(c.Name, ".Visit") {
		return
	}
	for _, a := range c.Args {
		for a.Op == "iface" {
			a = a.Args[0]
		}
		if a.Op != "alloc" || a.Typ == nil {
			continue
		}
		n, ok := types.Unalias(a.Typ).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), x.Module) {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		site := uname(c.Instr.Parent()) + "@" + strconv.Itoa(int(c.Pos)) + c.Ctx
		for m := range st.Mem {
			if m == a || underAddr(m, a) {
				delete(st.Mem, m)
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := mk("after", site+"."+f.Name(), f.Type(), a)
			st.Forget(v)
			st.store(FieldAddr(a, f.Name(), f.Type()), v)
		}
	}
}

var noReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "runtime.Goexit": true}

// push schedules a state whose active frame is in the middle of a block.
func (x *Exec) push(st *State) { x.work = append(x.work, st) }

// InlineOK reports whether a call of f would be followed.
func (x *Exec) InlineOK(st *State, f *ssa.Function) bool {
	return len(f.Blocks) > 0 && x.inlineOK(st, f)
}

func (x *Exec) inlineOK(st *State, f *ssa.Function) bool {
	if len(st.Frames) > 14 {
		x.undecided("inlining bound reached at %s", f)
		return false
	}
	active := 0
	for _, fr := range st.Frames {
		if fr.Fn == f {
			active++
		}
	}
	if active > x.Rule.Reenter {
		return false
	}
	if x.Opaque != nil && x.Opaque(f) {
		return false
	}
	if x.Rule.Inline != nil {
		return x.Rule.Inline(f)
	}
	return x.InModule(f)
}

// InModule reports whether f belongs to the analysed module (or is a wrapper or
// closure of one of its functions).
func (x *Exec) InModule(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), x.Module)
	}
	if f.Parent() != nil {
		return x.InModule(f.Parent())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), x.Module)
	}
	return strings.Contains(f.String(), x.Module)
}

func (x *Exec) enter(st *State, fr *Frame, c *CallInfo, fnT *Term) {
	f := c.Callee
	x.Funcs[f] = true
	name := ""
	if v, ok := c.Instr.(ssa.Value); ok {
		name = v.Name()
	} else {
		name = "d" + strconv.Itoa(int(c.Instr.Pos()))
	}
	nf := &Frame{Fn: f, Call: c.Instr, Env: map[ssa.Value]*Term{}, Ctx: fr.Ctx + "/" + uname(fr.Fn) + "." + name, Block: f.Blocks[0]}
	for i, p := range f.Params {
		if i < len(c.Args) {
			nf.Env[p] = c.Args[i]
		}
	}
	t := c.Func
	if t == nil {
		t = fnT
	}
	if t != nil && t.Op == "closure" {
		for i, v := range f.FreeVars {
			if i < len(t.Args) {
				nf.Env[v] = t.Args[i]
			}
		}
	}
	st.Frames = append(st.Frames, nf)
}

func (x *Exec) intrinsic(st *State, fr *Frame, c *CallInfo) (*Term, bool) {
	a := c.Args
	typ := func() types.Type {
		if t, ok := c.Result.(*types.Tuple); ok && t.Len() == 1 {
			return t.At(0).Type()
		}
		return c.Result
	}
	switch c.Name {
	case "builtin:len":
		return Len(a[0]), true
	case "builtin:cap":
		return mk("cap", "", types.Typ[types.Int], a[0]), true
	case "builtin:append":
		if len(a) == 1 {
			return a[0], true
		}
		base := a[0]
		t := typ()
		if v, ok := c.Instr.(ssa.Value); ok {
			t = v.Type()
		}
		if base.Op == "slice" {
			if h, ok := base.Args[2].IsInt(); ok && h == 0 {
				base = Nil() // x[:0]
			}
		}
		var second *Term
		if a[1].Op == "cat" || a[1].IsNil() {
			second = a[1]
		} else {
			second = mk("spread", "", nil, a[1])
		}
		return Cat(t, base, second), true
	case "builtin:ssa:wrapnilchk":
		return a[0], true
	case "builtin:min", "builtin:max":
		if v, ok := c.Instr.(ssa.Value); ok {
			return mk("pure", c.Name, v.Type(), a...), true
		}
	case "builtin:copy":
		if a[0].Op == "make" && len(a[0].Args) > 0 && a[0].Args[0] == Len(a[1]) {
			if x.Copies == nil {
				x.Copies = map[*Term]*Term{}
			}
			x.Copies[a[0]] = a[1]
		}
		return Len(a[1]), true
	case "builtin:delete", "builtin:print", "builtin:println", "builtin:close", "builtin:clear":
		return mk("tuple", "", nil), true
	case "builtin:recover":
		return mk("opaque", "recover", types.Universe.Lookup("any").Type()), true
	case "errors.New":
		return mk("nonnil", "error", typ(), a...), true
	case "fmt.Errorf":
		return mk("nonnil", "error", typ(), a...), true
	case "fmt.Sprintf":
		if t := sprintf(a); t != nil {
			return t, true
		}
		return mk("pure", "fmt.Sprintf", types.Typ[types.String], a...), true
	case "fmt.Sprint", "fmt.Sprintln":
		return mk("pure", c.Name, types.Typ[types.String], a...), true
	case "strings.HasSuffix", "strings.HasPrefix", "strings.TrimSuffix", "strings.TrimPrefix":
		v, ok1 := a[0].IsStr()
		w, ok2 := a[1].IsStr()
		if ok1 && ok2 {
			switch c.Name {
			case "strings.HasSuffix":
				return Bool(strings.HasSuffix(v, w)), true
			case "strings.HasPrefix":
				return Bool(strings.HasPrefix(v, w)), true
			case "strings.TrimSuffix":
				return StrConst(strings.TrimSuffix(v, w)), true
			}
			return StrConst(strings.TrimPrefix(v, w)), true
		}
	case "path.Ext", "path/filepath.Ext":
		if v, ok := a[0].IsStr(); ok {
			return StrConst(path.Ext(v)), true
		}
	case "strings.CutSuffix", "strings.CutPrefix":
		v, ok1 := a[0].IsStr()
		w, ok2 := a[1].IsStr()
		if ok1 && ok2 {
			r, found := strings.CutSuffix(v, w)
			if c.Name == "strings.CutPrefix" {
				r, found = strings.CutPrefix(v, w)
			}
			return mk("tuple", "", nil, StrConst(r), Bool(found)), true
		}
	case "strings.Join":
		if s, ok := a[1].IsStr(); ok && a[0].Op == "cat" {
			parts := []*Term{}
			for i, p := range a[0].Args {
				if p.Op != "one" {
					return nil, false
				}
				if i > 0 {
					parts = append(parts, StrConst(s))
				}
				e := p.Args[0]
				if v, ok := st.Mem[Sym("ia", "", types.Typ[types.String], a[0], Int(int64(i)))]; ok {
					e = v // replaced in place
				}
				parts = append(parts, e)
			}
			return StrCat(parts...), true
		}
	}
	return nil, false
}

// sprintf resolves constant formats made of plain verbs.
func sprintf(a []*Term) *Term {
	f, ok := a[0].IsStr()
	if !ok || len(a) < 2 {
		return nil
	}
	if a[1].IsNil() {
		return StrConst(f)
	}
	if a[1].Op != "cat" {
		return nil
	}
	args := a[1].Args
	parts := []*Term{}
	k := 0
	lit := strings.Builder{}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit.WriteByte('%')
			continue
		}
		if f[i] != 's' && f[i] != 'd' && f[i] != 'v' {
			return nil
		}
		if k >= len(args) || args[k].Op != "one" {
			return nil
		}
		v := args[k].Args[0]
		k++
		parts = append(parts, StrConst(lit.String()))
		lit.Reset()
		if v.Op == "iface" && isString(v.Typ) && !hasStringer(v.Typ) {
			parts = append(parts, v.Args[0])
		} else {
			parts = append(parts, mk("fmt", string(f[i]), types.Typ[types.String], v))
		}
	}
	parts = append(parts, StrConst(lit.String()))
	return StrCat(parts...)
}

// Sprintf is the text made of a format and a list of values, nil if unknown.
func Sprintf(a []*Term) *Term { return sprintf(a) }

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

var _ token.Pos

// uname is a short unique name of a function.
func uname(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

// Enter runs the function value fnT in place of the called function, so that
// the call returns when it does.
func (x *Exec) Enter(st *State, c *CallInfo, fnT *Term, args []*Term) *ssa.Function {
	for fnT != nil && (fnT.Op == "iface" || fnT.Op == "conv") {
		fnT = fnT.Args[0]
	}
	if fnT == nil {
		return nil
	}
	var f *ssa.Function
	fr := st.top()
	switch fnT.Op {
	case "func":
		f = FuncByName(fr.Fn.Prog, fnT.Str)
	case "closure":
		f = closures[fnT.Str]
	}
	if f == nil || len(f.Blocks) == 0 || !x.inlineOK(st, f) {
		return nil
	}
	n := *c
	n.Callee, n.Args, n.Func = f, args, fnT
	x.enter(st, fr, &n, fnT)
	return f
}

// Closure is the function of a closure value.
func Closure(t *Term) *ssa.Function {
	if t.Op != "closure" {
		return nil
	}
	return closures[t.Str]
}
