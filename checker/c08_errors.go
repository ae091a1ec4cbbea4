package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C08", Title: "No failure is swallowed",
		Rule:  "Every live function of the module is analysed on its own, each call which returns an error having two outcomes. On every path to a return without error no failed call may be outstanding: a failure is settled only if its error is part of the result or kept where it outlives the function, if it is known to be io.EOF, or if the same operation succeeded afterwards in its place. A loop must not go on past a failure it does not keep. Files opened for writing and buffered writers must have been closed or flushed successfully before success is returned. Functions which wrap errors must keep them. Functions without an error result must not outlive a failure at all.",
		Trust: []string{"writing to memory buffers and printing cannot fail in a way to report", "functions outside the module return an error when they fail", "C09 and C14 decide how the command and the server report a failure"},
		Run:   runC08,
	})
}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errResult is the index of the error result of a signature, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// harmless calls: failing does not make anything incomplete.
func harmless(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "(*bytes.Buffer).", "(*strings.Builder).", "(*text/tabwriter"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "runtime/pprof.") || name == "(hash.Hash).Write"
}

// presentation: the functions which show errors to a user.
func (c *C) presentation() map[*ssa.Function]bool {
	pe := c.P.iface(mod, "PrettyError")
	roots := []*ssa.Function{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			if f.Parent() != nil {
				continue
			}
			rv := f.Signature.Recv()
			if rv != nil && pe != nil && types.Implements(rv.Type(), pe) {
				for i := 0; i < pe.NumMethods(); i++ {
					if pe.Method(i).Name() == f.Name() && f.Name() != "Error" {
						roots = append(roots, f)
					}
				}
			}
			sig := f.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				// a function which is given an error to show
				if isErrType(sig.Params().At(i).Type()) && sig.Results().Len() == 0 && !panics(f) {
					roots = append(roots, f)
				}
			}
		}
	}
	if n := c.P.named(mod, "ErrorLocation"); n != nil {
		for i := 0; i < n.NumMethods(); i++ {
			if f := c.P.SSA.FuncValue(n.Method(i)); f != nil && errResult(f.Signature) < 0 {
				roots = append(roots, f)
			}
		}
	}
	return c.P.reach(roots...)
}

// neverFails: visiting with a visitor of the type cannot yield an error.
func (c *C) neverFails(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || types.IsInterface(n) {
		return false
	}
	some := false
	for i := 0; i < n.NumMethods(); i++ {
		f := c.P.SSA.FuncValue(n.Method(i))
		if f == nil || errResult(f.Signature) < 0 {
			continue
		}
		some = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				if !c.noErr(r.Results[errResult(f.Signature)], n, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return some
}

func (c *C) noErr(v ssa.Value, n *types.Named, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.noErr(e, n, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		for _, a := range v.Common().Args {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			t := a.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if g := v.Common().StaticCallee(); types.Identical(t, n) && g != nil && g.Signature.Recv() == nil && len(g.Blocks) > 0 && g.Pkg == c.P.SSA.Package(n.Obj().Pkg()) && errResult(g.Signature) >= 0 {
				// a part of the visitor
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if r, ok := in.(*ssa.Return); ok && !c.noErr(r.Results[errResult(g.Signature)], n, seen) {
							return false
						}
					}
				}
				return true
			}
			if types.Identical(t, n) && (v.Common().IsInvoke() && v.Common().Method.Name() == "Visit" || v.Common().StaticCallee() != nil && v.Common().StaticCallee().Signature.Recv() != nil && v.Common().StaticCallee().Pkg == c.P.SSA.Package(n.Obj().Pkg())) {
				return true
			}
		}
	}
	return false
}

func runC08(c *C) {
	shown := c.presentation()
	server := map[*ssa.Function]bool{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			pos := c.P.Fset.Position(f.Pos())
			if !c.P.live()[f] || len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() != "init" || strings.HasSuffix(pos.Filename, "bindata.go") {
				continue
			}
			if strings.HasSuffix(pos.Filename, ".peg.go") && f.Signature.Recv() != nil && !strings.Contains(f.Signature.Recv().Type().String(), ".current") {
				continue
			}
			if f.Name() == "ServeHTTP" && f.Signature.Recv() != nil || f.Name() == "Main" && f.Signature.Recv() == nil && strings.HasSuffix(pk.PkgPath, "booklitcmd") {
				server[f] = true
				continue
			}
			if errResult(f.Signature) < 0 && answers(f) && !token.IsExported(f.Name()) && c.onlyCalled(f) {
				continue // part of answering a request
			}
			if c.fallible(f) && !ownClosure(f) && (shown[f] && f.Signature.Results().Len() == 0 || !c.errHelper(f)) {
				c.swallow(f, shown)
			}
		}
	}
	c.Need("functions", 20)
	c.Need("fallible calls", 40)
	c.Need("ways out", 40)
}

// inBackground: a function literal which is only run in a goroutine of its own.
func inBackground(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Go:
				if i.Common().StaticCallee() == f {
					n++
				}
			case ssa.CallInstruction:
				if i.Common().StaticCallee() == f {
					return false
				}
			}
		}
	}
	return n > 0
}

func (c *C) fallible(f *ssa.Function) bool {
	if f.Signature.Results().Len() == 1 && errResult(f.Signature) == 0 {
		for _, p := range f.Params {
			if isErrType(p.Type()) {
				return true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok && errResult(call.Common().Signature()) >= 0 {
				return true
			}
		}
	}
	return false
}

func (c *C) swallow(f *ssa.Function, shown map[*ssa.Function]bool) {
	c.Obl("functions")
	name := short(f.String())
	ri := errResult(f.Signature)
	errT := types.Universe.Lookup("error").Type()
	what := map[string]string{} // key -> description
	at := map[string]token.Pos{}
	errOf := func(ci *flow.CallInfo, r *flow.Term) *flow.Term {
		sig := ci.Instr.Common().Signature()
		k := errResult(sig)
		if sig.Results().Len() == 1 {
			return r
		}
		return flow.Sym("result", itoa(k), sig.Results().At(k).Type(), r)
	}
	eof := func(s *flow.State, e *flow.Term) bool {
		return s.Decide(flow.Eq(e, flow.Sym("global", "io.EOF", errT))) == 1
	}
	part := func(g *ssa.Function) bool {
		return ownClosure(g) || (!shown[g] || g.Signature.Results().Len() > 0) && c.errHelper(g) || c.leaf(g)
	}
	r := &flow.Rule{Inline: part}
	prune := func(s *flow.State) {
		// kept in a variable which is nil on this path: it did not happen
		for _, cr := range s.Items("carried") {
			if s.IsNil(cr.Terms[1]) != 1 {
				continue
			}
			for _, it := range s.Items("failed") {
				if it.Terms[0] == cr.Terms[0] {
					s.Del("failed", it.Terms...)
				}
			}
			s.Del("carried", cr.Terms...)
		}
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		prune(s)
		sig := ci.Instr.Common().Signature()
		if ci.Go {
			return nil, false
		}
		// resources which need a final step
		if (ci.Name == "(*os.File).Close" || ci.Name == "(*bufio.Writer).Flush") && !ci.Defer && !quietly(ci.Instr) {
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				if o.St.IsNil(o.Res) == 1 {
					o.St.Del("unfinished", ci.Args[0])
				}
			}
			profile := s.Has("profiled") && ri < 0 // the profile's file, when it is complete
			if ci.Name == "(*os.File).Close" && !onlyRead(ci.Args[0]) && !profile {
				// closing on the way out of a failure
				for _, o := range outs {
					if o.St.IsNil(o.Res) == 0 {
						c.fail(o.St, ci, o.Res, what, at)
					}
				}
			}
			return outs, true
		}
		if _, outs := asTarget(x, s, ci); outs != nil {
			return outs, true
		}
		if ci.Name == "runtime/pprof.StopCPUProfile" {
			s.AddSticky("profiled")
		}
		if serving := ci.Name == "net/http.Serve" || ci.Name == "(*net/http.Server).Serve"; serving && ri < 0 && inBackground(f) {
			return one(s, x.OpaqueResult(s, ci)), true
		}
		if ci.Name == "runtime/pprof.StartCPUProfile" {
			s.Del("unfinished", unwrap(ci.Args[0]))
		}
		for _, a := range ci.Args { // handed over
			if ci.Callee != nil && x.InModule(ci.Callee) && a.Typ != nil && a.Typ.String() == "*os.File" {
				s.Del("unfinished", a)
			}
		}
		if ci.Callee != nil && (ownClosure(ci.Callee) || part(ci.Callee) && x.InlineOK(s, ci.Callee)) {
			return nil, false
		}
		if errResult(sig) < 0 {
			if ci.Name == "bufio.NewWriter" || ci.Name == "bufio.NewWriterSize" {
				res := x.OpaqueResult(s, ci)
				s.AddSticky("unfinished", res)
				return one(s, res), true
			}
			return nil, false
		}
		if harmless(ci.Name) || (ci.Defer || quietly(ci.Instr)) && strings.HasSuffix(ci.Name, ").Close") || (ci.Defer || quietly(ci.Instr)) && cleansUp(ci.Callee) || ci.Name == "os.RemoveAll" || ci.Name == "os.Remove" {
			return nil, false
		}
		// making or wrapping an error
		if sig.Results().Len() == 1 {
			wraps := false
			for _, a := range ci.Args {
				wraps = wraps || a.Typ != nil && isErrType(a.Typ) && s.IsNil(a) == 0
			}
			if wraps || ci.Name == "fmt.Errorf" || ci.Name == "errors.New" {
				res := x.OpaqueResult(s, ci)
				if !s.Assume(flow.Eq(res, flow.Nil()), false) {
					return flow.Stop, true
				}
				return one(s, res), true
			}
		}
		for _, a := range ci.Args {
			if u := a; u.Op == "iface" && u.Args[0].Typ != nil && strings.Contains(ci.Name, ".Visit") && c.neverFails(u.Args[0].Typ) {
				return nil, false
			}
		}
		if ci.Name == "io.Copy" || ci.Name == "io.WriteString" {
			if a := unwrap(ci.Args[0]); a.Typ != nil && (a.Typ.String() == "*bytes.Buffer" || a.Typ.String() == "*strings.Builder") && ci.Name == "io.WriteString" {
				return nil, false
			}
		}
		c.Obl("fallible calls")
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			e := errOf(ci, o.Res)
			if o.St.IsNil(e) == 0 {
				c.fail(o.St, ci, e, what, at)
				continue
			}
			// the same operation succeeded in place of an earlier failure
			for _, it := range o.St.Items("failed") {
				if n, _ := it.Terms[1].IsStr(); n == ci.Name {
					o.St.Del("failed", it.Terms...)
					o.St.AddSticky("instead", it.Terms[0], it.Terms[1])
				}
			}
			switch ci.Name {
			case "os.Create", "os.OpenFile", "os.CreateTemp":
				ro := false
				if ci.Name == "os.OpenFile" {
					n, ok := ci.Args[1].IsInt()
					ro = ok && n&3 == 0
				}
				if !ro {
					file := flow.Sym("result", "0", sig.Results().At(0).Type(), o.Res)
					o.St.AddSticky("unfinished", file)
				}
			}
		}
		return outs, true
	}
	r.Store = func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
		root := addr
		for root.Op == "fa" || root.Op == "ia" {
			root = root.Args[0]
		}
		for _, it := range s.Items("failed") {
			e := it.Terms[2]
			if root.Op != "alloc" && (v == e || v.Has(func(t *flow.Term) bool { return t == e })) {
				s.Del("failed", it.Terms...)
			}
		}
		for _, it := range s.Items("unfinished") {
			if root.Op != "alloc" && (unwrap(v) == it.Terms[0]) {
				s.Del("unfinished", it.Terms...)
			}
		}
	}
	r.BackEdge = func(x *flow.Exec, s *flow.State, l *flow.Loop) {
		prune(s)
		// what an earlier iteration failed at and was not kept
		for _, it := range s.Items("instead") {
			// succeeded, and goes on: nothing was tried instead
			s.Del("instead", it.Terms...)
			s.AddSticky("failed", it.Terms[0], it.Terms[1], flow.StrConst("lost"))
		}
		for _, it := range s.Items("carried") {
			k, sym := it.Terms[0], it.Terms[1]
			if step := l.Steps[sym]; step != nil && step != sym {
				s.Del("carried", k, sym)
			}
		}
		for _, it := range s.Items("failed") {
			for sym, v := range l.Steps {
				if v == it.Terms[2] || v.Has(func(t *flow.Term) bool { return t == it.Terms[2] }) {
					s.AddSticky("carried", it.Terms[0], sym)
				}
			}
		}
	}
	var setup func(*flow.State)
	args := []*flow.Term{}
	for _, p := range f.Params {
		args = append(args, flow.Sym("param", p.Name(), p.Type()))
	}
	if f.Signature.Results().Len() == 1 && ri == 0 && !shown[f] {
		setup = func(s *flow.State) {
			for i, p := range f.Params {
				if isErrType(p.Type()) && s.Assume(flow.Eq(args[i], flow.Nil()), false) {
					what["param"] = "the error it is given"
					s.AddSticky("failed", flow.StrConst("param"), flow.StrConst("param"), args[i])
				}
			}
		}
	}
	_, exits := c.run(r, f, args, setup)
	for _, e := range exits {
		c.Obl("ways out")
		s := e.St
		prune(s)
		if ri >= 0 && s.IsNil(e.Res[ri]) == 0 {
			continue
		}
		mentioned := func(t *flow.Term) bool {
			for _, res := range e.Res {
				if res == t || res.Has(func(u *flow.Term) bool { return u == t }) {
					return true
				}
			}
			return false
		}
		for _, it := range s.Items("failed") {
			k, _ := it.Terms[0].IsStr()
			if mentioned(it.Terms[2]) || eof(s, it.Terms[2]) {
				continue
			}
			settled := false
			for _, cr := range s.Items("carried") {
				settled = settled || cr.Terms[0] == it.Terms[0] && mentioned(cr.Terms[1])
			}
			if s.Decide(flow.Sym("global", mod+".AllowBrokenReferences", types.Typ[types.Bool])) == 1 && strings.HasPrefix(k, "(*"+mod+".Reference)") {
				continue // the fallback the user asked for (C04)
			}
			if settled || ri < 0 && shown[f] {
				continue
			}
			c.VP("swallowed:"+name+":"+strings.SplitN(k, "@", 2)[0], at[k], s.Path(), "%s fails at %s but %s can go on to %s", what[k], c.P.pos(at[k]), name, successOf(ri))
		}
		for _, it := range s.Items("unfinished") {
			given := false
			for _, res := range e.Res {
				given = given || holds(res, it.Terms[0])
			}
			if given {
				continue
			}
			c.VP("unfinished:"+name, e.Pos, s.Path(), "%s can report success without having checked that what it wrote to %s was completed", name, it.Terms[0])
		}
	}
}

// answers: the function is given the means to answer a request.
func answers(f *ssa.Function) bool {
	for _, p := range f.Params {
		if p.Type().String() == "net/http.ResponseWriter" {
			return true
		}
	}
	return false
}

// quietly: the call is all by itself in a deferred function literal.
func quietly(i ssa.CallInstruction) bool {
	v, ok := i.(*ssa.Call)
	return ok && len(*v.Referrers()) == 0 && onlyDeferred(i.Parent())
}

// onlyDeferred: a function literal which is only run by defer, and whose calls
// leave no trace of how they ended.
func onlyDeferred(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if mc, ok := (*op).(*ssa.MakeClosure); ok && mc.Fn == f || *op == ssa.Value(f) {
					if _, ok := i.(*ssa.MakeClosure); ok {
						continue
					}
					if d, ok := i.(*ssa.Defer); !ok || d.Common().StaticCallee() != f {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

// errHelper: a small function of the module which is given an error by its
// callers and is judged as part of them.
func (c *C) errHelper(f *ssa.Function) bool {
	if f.Parent() != nil || token.IsExported(f.Name()) || len(f.Blocks) == 0 || len(f.Blocks) > 12 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), mod) {
		return false
	}
	given := false
	for _, p := range f.Params {
		given = given || isErrType(p.Type())
	}
	return given && c.onlyCalled(f)
}

// leaf: a small function of the module which calls nothing.
func (c *C) leaf(f *ssa.Function) bool {
	if f.Parent() != nil || token.IsExported(f.Name()) || len(f.Blocks) == 0 || len(f.Blocks) > 6 || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), mod) || f.Name() == "init" {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(ssa.CallInstruction); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

// onlyCalled: every use of a function is a direct call of it.
func (c *C) onlyCalled(f *ssa.Function) bool {
	if c.calledOnly == nil {
		c.calledOnly = map[*ssa.Function]bool{}
		for _, pk := range c.P.scope() {
			for _, g := range c.P.allFuncs(pk.PkgPath) {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						call, isCall := i.(*ssa.Call)
						for _, op := range i.Operands(nil) {
							h, ok := (*op).(*ssa.Function)
							if !ok {
								continue
							}
							direct := isCall && call.Common().Value == ssa.Value(h) && h != g
							for _, a := range argsOf(i) {
								direct = direct && a != ssa.Value(h)
							}
							if was, ok := c.calledOnly[h]; !ok {
								c.calledOnly[h] = direct
							} else {
								c.calledOnly[h] = was && direct
							}
						}
					}
				}
			}
		}
	}
	return c.calledOnly[f]
}

// panics: the function says so itself.
func panics(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Panic); ok {
				return true
			}
		}
	}
	return false
}

// cleansUp: all that can fail in a function is removing and closing.
func cleansUp(f *ssa.Function) bool {
	if f == nil || !inMod(f) || len(f.Blocks) == 0 || token.IsExported(f.Name()) {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(ssa.CallInstruction)
			if !ok || errResult(call.Common().Signature()) < 0 {
				continue
			}
			if m := calleeName(call); m != "os.RemoveAll" && m != "os.Remove" {
				return false
			}
			n++
		}
	}
	return n > 0
}

// callsOf lists the direct calls of a function.
func (c *C) callsOf(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, pk := range c.P.scope() {
		for _, g := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
						out = append(out, call)
					}
				}
			}
		}
	}
	return out
}

func argsOf(i ssa.Instruction) []ssa.Value {
	if call, ok := i.(ssa.CallInstruction); ok {
		return call.Common().Args
	}
	return nil
}

// ownClosure: an anonymous function which is only ever called by the function
// it is part of.
func ownClosure(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	used := false
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			var v ssa.Value
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
				v = mc
				for _, u := range *mc.Referrers() {
					call, ok := u.(ssa.CallInstruction)
					if !ok || call.Common().Value != v {
						return false
					}
					if _, g := u.(*ssa.Go); g {
						return false
					}
					used = true
				}
				continue
			}
			for _, op := range i.Operands(nil) {
				if *op == ssa.Value(f) {
					call, ok := i.(ssa.CallInstruction)
					if !ok || call.Common().Value != ssa.Value(f) {
						return false
					}
					if _, g := i.(*ssa.Go); g {
						return false
					}
					used = true
				}
			}
		}
	}
	return used
}

func successOf(ri int) string {
	if ri < 0 {
		return "return without reporting it"
	}
	return "report success"
}

// onlyRead: the file was opened for reading, so closing it loses nothing.
func onlyRead(t *flow.Term) bool {
	if t.Op != "result" || t.Str != "0" {
		return false
	}
	switch flow.CallName(t.Args[0]) {
	case "os.Open":
		return true
	case "os.OpenFile":
		n, ok := t.Args[0].Args[1].IsInt()
		return ok && n&3 == 0
	}
	return false
}

// fail records an outstanding failure.
func (c *C) fail(s *flow.State, ci *flow.CallInfo, e *flow.Term, what map[string]string, at map[string]token.Pos) {
	k := ci.Name + "@" + c.P.pos(ci.Pos)
	what[k] = short(ci.Name)
	at[k] = ci.Pos
	s.AddSticky("failed", flow.StrConst(k), flow.StrConst(ci.Name), e)
}
