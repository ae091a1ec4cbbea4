package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C19", Title: "Functions are called with exactly the given arguments, or not at all",
		Rule:  "Every path of the reflective call is walked symbolically for all shapes of functions and calls up to three parameters (fixed and variadic), five given arguments, three plugins, every kind of parameter and every combination of up to three results. On every path the method called must be the one found on the first plugin which has it, under the name made from the call; its arguments must be exactly the given ones in order, each converted as its parameter asks for, evaluated in the same section from nothing; it is called at most once; a path without a call must be an error exactly if there is no such method, the number of arguments does not fit, a parameter's type is unsupported or evaluating an argument failed; results are joined to the previous content, errors returned as they are or wrapped. The method's name is every word of the call's name, title-cased, joined in order.",
		Trust: []string{"reflection calls what it is asked to", "title-casing is done by the text library", "functions with more parameters or arguments behave as those with three and five"},
		Run:   runC19,
	})
}

type invokeShape struct {
	params   []string // string, content, node, other
	variadic bool
	given    int
	results  []string // content, error, other
}

func (sh invokeShape) String() string {
	s := "(" + strings.Join(sh.params, ", ")
	if sh.variadic {
		s += "..."
	}
	return s + ") (" + strings.Join(sh.results, ", ") + ") given " + itoa(sh.given)
}

// paramKind is the kind of the parameter an argument goes to.
func (sh invokeShape) paramKind(i int) string {
	if sh.variadic && i >= len(sh.params)-1 {
		return sh.params[len(sh.params)-1]
	}
	return sh.params[i]
}

func (sh invokeShape) fits() bool {
	if sh.variadic {
		return sh.given >= len(sh.params)-1
	}
	return sh.given == len(sh.params)
}

func (sh invokeShape) supported() bool {
	for i := 0; i < sh.given; i++ {
		if sh.paramKind(i) == "other" {
			return false
		}
	}
	return true
}

// listItems is a list's items where all of them are known.
func listItems(s *flow.State, t *flow.Term, et types.Type) ([]*flow.Term, bool) {
	if t == nil {
		return nil, false
	}
	switch t.Op {
	case "nil":
		return nil, true
	case "cat":
		out := []*flow.Term{}
		for _, p := range t.Args {
			if p.Op == "one" {
				v := p.Args[0]
				// set since
				if m := s.Mem[flow.Sym("ia", "", et, t, flow.Int(int64(len(out))))]; m != nil {
					v = m
				}
				out = append(out, v)
				continue
			}
			sub, ok := listItems(s, p.Args[0], et)
			if !ok {
				return nil, false
			}
			out = append(out, sub...)
		}
		return out, true
	case "make":
		if len(t.Args) == 0 {
			return nil, false
		}
		n, ok := t.Args[0].IsInt()
		if !ok || n > 20 {
			return nil, false
		}
		out := []*flow.Term{}
		for k := int64(0); k < n; k++ {
			out = append(out, s.Load(flow.Sym("ia", "", et, t, flow.Int(k)), et))
		}
		return out, true
	case "slice":
		lo, ok1 := t.Args[1].IsInt()
		all, ok2 := listItems(s, t.Args[0], et)
		if !ok1 && !t.Args[1].IsNil() || !ok2 {
			return nil, false
		}
		hi := int64(len(all))
		if v, ok := t.Args[2].IsInt(); ok {
			hi = v
		} else if !t.Args[2].IsNil() && t.Args[2] != flow.Len(t.Args[0]) {
			return nil, false
		}
		if lo < 0 || lo > hi || hi > int64(len(all)) {
			return nil, false
		}
		return all[lo:hi], true
	}
	return nil, false
}

type invokeModel struct {
	c       *C
	m       *evalModel
	sh      invokeShape
	recv    *flow.Term
	invoke  *flow.Term
	section *flow.Term
	plugins []*flow.Term
	nodes   []*flow.Term
	orig    *flow.Term
	wide    bool
	quiet   bool
	setup   func(*flow.State)
	r0      *flow.Term
	valT    types.Type // reflect.Value
	typT    types.Type // reflect.Type
	empty   *flow.Term
	strT    types.Type
}

func (v *invokeModel) rtype(kind string) *flow.Term {
	return flow.Sym("pure", "type:"+kind, v.typT)
}

func (v *invokeModel) goType(kind string) types.Type {
	switch kind {
	case "string":
		return types.Typ[types.String]
	case "content":
		return v.m.con
	case "node":
		return v.c.P.named(astPkg, "Node")
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	return types.Typ[types.Complex128]
}

// kindOfGo is the kind of a known type.
func (v *invokeModel) kindOfGo(t types.Type) string {
	for _, k := range typeKinds {
		if types.Identical(t, v.goType(k)) {
			return k
		}
	}
	if p, ok := t.(*types.Pointer); ok {
		if k := v.kindOfGo(p.Elem()); k != "" {
			return "pointer to " + k
		}
	}
	return ""
}

var typeKinds = []string{"string", "content", "node", "error"}

// typeVar is the type which a package's variable holds.
func (v *invokeModel) typeVar(t *flow.Term) *flow.Term {
	if k := v.typeValue(v.c.initial(t)); k != "" {
		return v.rtype(k)
	}
	return nil
}

func (v *invokeModel) typeValue(val ssa.Value) string {
	call, ok := val.(*ssa.Call)
	if !ok {
		return ""
	}
	switch {
	case calleeName(call) == "reflect.TypeOf":
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			return v.kindOfGo(mi.X.Type())
		}
	case call.Call.IsInvoke() && call.Call.Method.FullName() == "(reflect.Type).Elem":
		k := v.typeValue(call.Call.Value)
		if rest := strings.TrimPrefix(k, "pointer to "); rest != k {
			return rest
		}
	}
	return ""
}

func (v *invokeModel) kindOf(t *flow.Term) string {
	if t.Op == "pure" && strings.HasPrefix(t.Str, "type:") {
		return strings.TrimPrefix(t.Str, "type:")
	}
	return ""
}

func (v *invokeModel) valid(method *flow.Term) *flow.Term {
	return flow.Sym("pure", "valid", types.Typ[types.Bool], method)
}

func (v *invokeModel) method(i int, name *flow.Term) *flow.Term {
	return flow.Sym("pure", "method", v.valT, v.plugins[i], name)
}

func (v *invokeModel) name() *flow.Term {
	return flow.Sym("pure", "methodname", v.strT, v.invoke)
}

func (v *invokeModel) boxed(t *flow.Term) *flow.Term {
	return flow.Sym("pure", "boxed", v.valT, t)
}

func (v *invokeModel) text(t *flow.Term) *flow.Term {
	return flow.Sym("pure", "text", v.strT, t)
}

// want is the value an argument is converted to in a state.
func (v *invokeModel) want(s *flow.State, i int) *flow.Term {
	if v.sh.paramKind(i) == "node" {
		return v.boxed(unwrap(v.nodes[i]))
	}
	con := v.m.of(v.nodes[i])
	if s.IsNil(con) == 1 {
		con = v.empty
	}
	if v.sh.paramKind(i) == "string" {
		if con == v.empty {
			return v.boxed(con) // its text is itself
		}
		return v.boxed(v.text(unwrap(con)))
	}
	return v.boxed(unwrap(con))
}

// outcome is the result of the call under consideration.
func (v *invokeModel) outcome(i int) *flow.Term {
	return flow.Sym("pure", "outcome"+itoa(i), types.NewInterfaceType(nil, nil))
}

func (v *invokeModel) result(i int) *flow.Term {
	return flow.Sym("pure", "result"+itoa(i), v.valT)
}

func (v *invokeModel) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	sh := v.sh
	boolT, intT := types.Typ[types.Bool], types.Typ[types.Int]
	_ = boolT
	a := ci.Args
	if t, ok := filePathCall(v.c, ci); ok {
		return one(s, t), true
	}
	name := strings.Replace(ci.Name, "invoke:", "", 1)
	switch name {
	case "reflect.ValueOf":
		return one(s, v.boxed(unwrap(a[0]))), true
	case "(reflect.Value).MethodByName":
		p := a[0]
		if p.Op == "pure" && p.Str == "boxed" {
			p = p.Args[0]
		}
		return one(s, flow.Sym("pure", "method", v.valT, p, a[1])), true
	case "(reflect.Value).IsValid":
		if a[0].Op == "zero" {
			return one(s, flow.Bool(false)), true
		}
		return one(s, v.valid(a[0])), true
	case "(reflect.Value).Type":
		return one(s, flow.Sym("pure", "mtype", v.typT, a[0])), true
	case "(reflect.Type).NumIn":
		return one(s, flow.Int(int64(len(sh.params)))), true
	case "(reflect.Type).IsVariadic":
		return one(s, flow.Bool(sh.variadic)), true
	case "(reflect.Type).NumOut":
		return one(s, flow.Int(int64(len(sh.results)))), true
	case "(reflect.Type).In":
		n, ok := a[1].IsInt()
		if !ok {
			return nil, false
		}
		if n < 0 || int(n) >= len(sh.params) {
			v.VP("bounds", ci.Pos, s.Path(), "with %s, the type of parameter %d is asked for, which panics", sh, n)
			return flow.Stop, true
		}
		k := sh.params[n]
		if sh.variadic && int(n) == len(sh.params)-1 {
			return one(s, flow.Sym("pure", "type:list of "+k, v.typT)), true
		}
		return one(s, v.rtype(k)), true
	case "(reflect.Type).Out":
		n, ok := a[1].IsInt()
		if !ok {
			return nil, false
		}
		if n < 0 || int(n) >= len(sh.results) {
			v.VP("bounds", ci.Pos, s.Path(), "with %s, the type of result %d is asked for, which panics", sh, n)
			return flow.Stop, true
		}
		return one(s, v.rtype(sh.results[n])), true
	case "reflect.TypeOf":
		if a[0].Op == "iface" {
			if k := v.kindOfGo(a[0].Typ); k != "" {
				return one(s, v.rtype(k)), true
			}
		}
	case "(reflect.Type).Elem":
		k := v.kindOf(a[0])
		if rest := strings.TrimPrefix(k, "pointer to "); rest != k {
			return one(s, v.rtype(rest)), true
		}
		if !strings.HasPrefix(k, "list of ") {
			v.VP("bounds", ci.Pos, s.Path(), "with %s, the element type of %s is asked for, which panics", sh, k)
			return flow.Stop, true
		}
		return one(s, v.rtype(strings.TrimPrefix(k, "list of "))), true
	case "reflect.New", "reflect.Zero":
		return one(s, flow.Sym("pure", name, v.valT, a[0])), true
	case "(reflect.Value).Interface":
		t := a[0]
		if t.Op == "pure" && t.Str == "reflect.New" && v.kindOf(t.Args[0]) != "" {
			pt := types.NewPointer(v.goType(v.kindOf(t.Args[0])))
			return one(s, flow.Iface(pt, flow.Sym("pure", "new", pt))), true
		}
		for n := range sh.results {
			if t == v.result(n) {
				return one(s, v.outcome(n)), true
			}
		}
		if t.Op == "elem" {
			v.VP("bounds", ci.Pos, s.Path(), "with %s, result %s is used, which panics", sh, t.Args[1])
			return flow.Stop, true
		}
	case "(reflect.Value).IsNil":
		t := a[0]
		for n := range sh.results {
			if t == v.result(n) {
				return one(s, flow.Eq(v.outcome(n), flow.Nil())), true
			}
		}
	case "(reflect.Value).Call":
		v.checkCall(s, ci)
		s.AddSticky("called", a[0])
		rs := []*flow.Term{}
		for n := range sh.results {
			rs = append(rs, flow.One(v.result(n)))
		}
		if len(rs) == 0 {
			return one(s, flow.Nil()), true
		}
		return one(s, flow.Cat(types.NewSlice(v.valT), rs...)), true
	case "(" + astPkg + ".Invoke).Method":
		if a[0] == v.invoke {
			return one(s, v.name()), true
		}
	case "(" + mod + ".Content).String":
		return one(s, v.text(unwrap(a[0]))), true
	case "time.AfterFunc":
		return nil, false
	}
	if node, vis := v.m.visit(ci); node != nil && ci.Callee != v.m.method("VisitInvoke") {
		vis = unwrap(vis)
		if vis.Op != "alloc" {
			v.VP("visitor", ci.Pos, s.Path(), "an argument is evaluated into %s", vis)
		} else {
			if sec := s.LoadField(vis, v.m.sec, v.section.Typ); sec != v.section {
				v.VP("visitor", ci.Pos, s.Path(), "an argument is evaluated in %s instead of the section of the call", sec)
			}
			if old := s.LoadField(vis, v.m.res, v.m.con); !old.IsNil() {
				v.VP("visitor", ci.Pos, s.Path(), "an argument is evaluated in addition to %s", old)
			}
		}
		if !sh.fits() || s.Count("called") > 0 {
			v.VP("effects", ci.Pos, s.Path(), "with %s, arguments are evaluated although the call fails or is over", sh)
		}
		outs, _ := v.m.call(x, s, ci)
		for _, o := range outs {
			if o.St.IsNil(o.Res) != 1 {
				o.St.AddSticky("argfail", o.Res)
			}
		}
		return outs, true
	}
	_ = intT
	return v.m.call(x, s, ci)
}

func (v *invokeModel) checkCall(s *flow.State, ci *flow.CallInfo) {
	c, sh := v.c, v.sh
	c.Obl("method calls")
	if s.Count("called") > 0 {
		v.VP("twice", ci.Pos, s.Path(), "with %s, the method can be called twice", sh)
	}
	first := -1
	for i := range v.plugins {
		ok := s.Decide(v.valid(v.method(i, v.name())))
		if ok == 1 {
			first = i
			break
		}
		if ok != 0 {
			break
		}
	}
	if first < 0 || ci.Args[0] != v.method(first, v.name()) {
		v.VP("method", ci.Pos, s.Path(), "the method called is %s, not that of the first plugin which has it", ci.Args[0])
	}
	if !sh.fits() {
		v.VP("count", ci.Pos, s.Path(), "with %s, the method is called although the number of arguments does not fit", sh)
		return
	}
	if !sh.supported() {
		v.VP("unsupported", ci.Pos, s.Path(), "with %s, the method is called although a parameter's type is not supported", sh)
		return
	}
	if s.Count("argfail") > 0 {
		v.VP("failed", ci.Pos, s.Path(), "the method is called although evaluating an argument failed")
		return
	}
	got, ok := listItems(s, ci.Args[1], v.valT)
	if !ok {
		v.VP("arguments", ci.Pos, s.Path(), "with %s, the method is called with %s instead of the given arguments", sh, ci.Args[1])
		return
	}
	if len(got) != sh.given {
		v.VP("arguments", ci.Pos, s.Path(), "with %s, the method is called with %d arguments", sh, len(got))
		return
	}
	for i, g := range got {
		if w := v.want(s, i); g != w {
			v.VP("argument:"+sh.paramKind(i), ci.Pos, s.Path(), "with %s, argument %d is passed as %s instead of %s", sh, i+1, g, w)
		}
	}
}

func (v *invokeModel) checkExit(e exitRec) {
	c, sh, s := v.c, v.sh, e.St
	c.Obl("ways out of calls")
	failed := s.IsNil(e.Res[0]) != 1
	final := s.Load(v.m.resultAddr(v.recv), v.m.con)
	n := 0
	none := true
	for i := range v.plugins {
		if s.Decide(v.valid(v.method(i, v.name()))) != 0 {
			none = false
		}
	}
	n = s.Count("called")
	if n == 0 {
		if !failed {
			v.VP("ignored", e.Pos, s.Path(), "with %s, a call can succeed without calling anything", sh)
			return
		}
		switch {
		case none, !sh.fits(), !sh.supported():
		case s.Count("argfail") > 0:
			ok := false
			for _, it := range s.Items("argfail") {
				ok = ok || e.Res[0].Mentions(it.Terms[0])
			}
			if !ok {
				v.VP("argerror", e.Pos, s.Path(), "evaluating an argument failed, but the error is %s", e.Res[0])
			}
		default:
			v.VP("refused", e.Pos, s.Path(), "with %s, the call fails with %s although everything fits", sh, e.Res[0])
		}
		return
	}
	// the results
	errOK := func(o *flow.Term) bool {
		r := unwrap(e.Res[0])
		if r == o || r.Op == "ta" && r.Args[0] == o {
			return true
		}
		if r.Has(func(t *flow.Term) bool { return t == o }) {
			return true
		}
		et := types.Universe.Lookup("error").Type()
		w := get(s, r, "Err", et)
		return unwrap(w) == o || unwrap(w).Op == "ta" && unwrap(w).Args[0] == o
	}
	same := func() bool { return final == v.r0 }
	success := func(o *flow.Term) {
		switch {
		case failed:
			v.VP("outcome", e.Pos, s.Path(), "with %s, the call fails with %s although the function did not", sh, e.Res[0])
		case o == nil || s.IsNil(o) == 1:
			if !same() {
				v.VP("outcome", e.Pos, s.Path(), "with %s and no content, the result is %s", sh, final)
			}
		default:
			got := final
			if s.IsNil(o) != 0 && got == v.r0 {
				v.VP("outcome", e.Pos, s.Path(), "with %s, content returned can be dropped", sh)
				return
			}
			want := v.m.join(v.r0, o)
			if unassert(got) != unassert(want) {
				v.VP("outcome", e.Pos, s.Path(), "with %s, the result is %s instead of %s", sh, got, want)
			}
		}
	}
	failure := func(o *flow.Term) {
		if !failed {
			v.VP("swallowed", e.Pos, s.Path(), "with %s, an error of the function can be lost", sh)
		} else if !errOK(o) {
			v.VP("swallowed", e.Pos, s.Path(), "with %s, the function fails but the error is %s", sh, e.Res[0])
		}
	}
	bad := func() {
		if !failed {
			v.VP("result", e.Pos, s.Path(), "with %s, whose results are not supported, the call can succeed", sh)
		}
	}
	rs := sh.results
	switch {
	case len(rs) == 0:
		success(nil)
	case len(rs) == 1 && rs[0] == "content":
		success(v.outcome(0))
	case len(rs) == 1 && rs[0] == "error":
		o := v.outcome(0)
		if s.IsNil(o) == 1 {
			success(nil)
		} else {
			failure(o)
		}
	case len(rs) == 2 && rs[0] == "content" && rs[1] == "error":
		o := v.outcome(1)
		if s.IsNil(o) == 1 {
			success(v.outcome(0))
		} else {
			failure(o)
		}
	default:
		bad()
	}
}

// unassert removes type assertions, which do not change the content.
func unassert(t *flow.Term) *flow.Term {
	m := map[*flow.Term]*flow.Term{}
	t.Walk(func(u *flow.Term) {
		if u.Op == "ta" {
			m[u] = u.Args[0]
		}
	})
	return t.Subst(m)
}

func runC19(c *C) {
	shapes := []invokeShape{}
	kinds := []string{"string", "content", "node", "other"}
	good := []string{"content", "error"}
	for n := 0; n <= 3; n++ {
		pats := [][]string{}
		if n == 0 {
			pats = append(pats, nil)
		} else {
			for k := range kinds {
				same, turn := []string{}, []string{}
				for i := 0; i < n; i++ {
					same = append(same, kinds[k])
					turn = append(turn, kinds[(k+i)%3])
				}
				pats = append(pats, same)
				if n > 1 && k < 3 {
					pats = append(pats, turn)
				}
			}
		}
		for _, p := range pats {
			for given := 0; given <= n+2 && given <= 5; given++ {
				shapes = append(shapes, invokeShape{p, false, given, good})
				if n > 0 {
					shapes = append(shapes, invokeShape{p, true, given, good})
				}
			}
		}
	}
	outs := []string{"content", "error", "other"}
	res := [][]string{{}}
	for _, a := range outs {
		res = append(res, []string{a})
		for _, b := range outs {
			res = append(res, []string{a, b})
		}
	}
	res = append(res, []string{"content", "error", "error"}, []string{"content", "content", "error"}, []string{"error", "content", "other"})
	for _, r := range res {
		shapes = append(shapes, invokeShape{[]string{"content"}, false, 1, r})
	}
	m := newEvalModel(c)
	for _, sh := range shapes {
		wide := sh.given <= 1 && len(sh.params) <= 1
		v := newInvokeModel(c, m, sh, wide)
		if v == nil {
			return
		}
		c.Obl("shapes of calls")
		_, exits := v.run(&flow.Rule{Call: v.call, Unroll: 40})
		for _, e := range exits {
			v.checkExit(e)
		}
	}
	inv := c.P.named(astPkg, "Invoke")
	c.methodNames(inv)
	c.Need("method calls", 1)
	c.Need("ways out of calls", 10)
}

// methodNames: the words of a function's name, title-cased, in order.
func (c *C) methodNames(inv *types.Named) {
	fn := c.meth(astPkg, "Invoke", "Method")
	strT := types.Typ[types.String]
	for n := 1; n <= 4; n++ {
		node := flow.Sym("param", "invoke", inv)
		function := flow.Field(node, "Function", strT)
		words, want := []*flow.Term{}, []*flow.Term{}
		title := func(w *flow.Term) *flow.Term { return flow.Sym("pure", "title", strT, w) }
		for i := 0; i < n; i++ {
			w := flow.Sym("param", "word"+itoa(i), strT)
			words = append(words, flow.One(w))
			want = append(want, title(w))
		}
		r := &flow.Rule{Unroll: 20, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch {
			case ci.Name == "strings.Split":
				if ci.Args[0] != function {
					c.V("words", ci.Pos, "the name split into words is %s, not the function's", ci.Args[0])
				}
				if sep, ok := ci.Args[1].IsStr(); !ok || sep != "-" {
					c.V("words", ci.Pos, "names are split at %s", ci.Args[1])
				}
				return one(s, flow.Cat(types.NewSlice(strT), words...)), true
			case strings.HasSuffix(ci.Name, "cases.Caser).String"):
				if !titleCaser(ci.Args[0]) {
					c.V("case", ci.Pos, "words are cased by %s instead of being title-cased", ci.Args[0])
				}
				return one(s, title(ci.Args[1])), true
			case ci.Name == "strings.Title":
				c.V("case", ci.Pos, "words are cased by strings.Title, which keeps other capitals")
				return one(s, title(ci.Args[0])), true
			}
			return c.builder(x, s, ci)
		}}
		_, exits := c.run(r, fn, []*flow.Term{node}, nil)
		for _, e := range exits {
			c.Obl("method names")
			got := e.Res[0]
			if w := flow.StrCat(want...); got != w {
				c.VP("name", e.Pos, e.St.Path(), "a name of %d words becomes %s instead of %s", n, got, w)
			}
		}
	}
	c.Need("method names", 4)
}

// titleCaser recognises a plain title caser.
func titleCaser(t *flow.Term) bool {
	for t.Op == "deref" || t.Op == "result" || t.Op == "conv" {
		t = t.Args[0]
	}
	n := flow.CallName(t)
	if !strings.HasSuffix(n, "cases.Title") {
		return t.Op == "global" // a caser made once
	}
	return len(t.Args) < 2 || t.Args[1].IsNil() || t.Args[1].Op == "cat" && len(t.Args[1].Args) == 0
}

// builder models strings built piece by piece.
func (c *C) builder(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	typ := ""
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(ci.Name, p) {
			typ = p
		}
	}
	if written := c.written(ci); written != nil {
		at := flow.FieldAddr(unwrap(ci.Args[0]), "built", types.Typ[types.String])
		cur := s.Load(at, types.Typ[types.String])
		if cur.Op == "field" || cur.Op == "zero" || cur.IsNil() {
			cur = flow.StrConst("")
		}
		s.StoreTo(at, flow.StrCat(cur, written))
		return one(s, flow.Sym("tuple", "", nil, flow.Len(written), flow.Nil())), true
	}
	if typ == "" || len(ci.Args) == 0 || ci.Args[0].Op != "alloc" {
		return nil, false
	}
	at := flow.FieldAddr(ci.Args[0], "built", types.Typ[types.String])
	cur := s.Load(at, types.Typ[types.String])
	if cur.Op == "field" || cur.Op == "zero" || cur.IsNil() {
		cur = flow.StrConst("")
	}
	switch strings.TrimPrefix(ci.Name, typ) {
	case "WriteString":
		s.StoreTo(at, flow.StrCat(cur, ci.Args[1]))
		return one(s, flow.Sym("tuple", "", nil, flow.Len(ci.Args[1]), flow.Nil())), true
	case "Write":
		s.StoreTo(at, flow.StrCat(cur, flow.Sym("conv", "", types.Typ[types.String], ci.Args[1])))
		return one(s, flow.Sym("tuple", "", nil, flow.Len(ci.Args[1]), flow.Nil())), true
	case "String":
		return one(s, cur), true
	case "Len":
		return one(s, flow.Len(cur)), true
	}
	return nil, false
}

// written is the text a formatting function writes to a string being built.
func (c *C) written(ci *flow.CallInfo) *flow.Term {
	if len(ci.Args) < 2 || unwrap(ci.Args[0]).Op != "alloc" {
		return nil
	}
	b := unwrap(ci.Args[0])
	if b.Typ == nil || b.Typ.String() != "strings.Builder" && b.Typ.String() != "bytes.Buffer" {
		return nil
	}
	switch ci.Name {
	case "io.WriteString":
		return ci.Args[1]
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		if t := flow.Sprintf(ci.Args[1:]); ci.Name == "fmt.Fprintf" && t != nil {
			return t
		}
		return flow.Sym("pure", "fmt.S"+ci.Name[5:], types.Typ[types.String], ci.Args[1:]...)
	}
	return nil
}

// newInvokeModel sets up a call of a shape; only wide ones have several
// plugins and may complain about being slow, which is independent of the
// parameters.
func newInvokeModel(c *C, m *evalModel, sh invokeShape, wide bool) *invokeModel {
	fn := m.method("VisitInvoke")
	inv := c.P.named(astPkg, "Invoke")
	nodeT := c.P.named(astPkg, "Node")
	var valT, typT types.Type
	for _, imp := range fn.Pkg.Pkg.Imports() {
		if imp.Path() == "reflect" {
			valT = imp.Scope().Lookup("Value").Type()
			typT = imp.Scope().Lookup("Type").Type()
		}
	}
	if valT == nil || inv == nil || nodeT == nil {
		c.V("anchor:reflect", fn.Pos(), "calls are no longer made by reflection")
		return nil
	}
	secP := types.NewPointer(c.P.named(mod, "Section"))
	plT := fieldTypeOf(secP, "Plugins")
	argT := fieldTypeOf(inv, "Arguments")
	if plT == nil || argT == nil {
		c.V("anchor:Arguments", fn.Pos(), "calls have no arguments or sections no plugins")
		return nil
	}
	v := &invokeModel{c: c, m: m, sh: sh, wide: wide, valT: valT, typT: typT, strT: types.Typ[types.String]}
	v.recv = flow.Sym("param", "evaluator", m.ptr)
	v.r0 = flow.Field(v.recv, m.res, m.con)
	v.section = flow.Field(v.recv, m.sec, secP)
	v.empty = flow.Sym("global", mod+".Empty", c.P.named(mod, "String"))
	pe := plT.Underlying().(*types.Slice).Elem()
	nplugins := 1
	if wide {
		nplugins = 3
	}
	ps := []*flow.Term{}
	for i := 0; i < nplugins; i++ {
		p := flow.Sym("param", "plugin"+itoa(i), pe)
		v.plugins = append(v.plugins, p)
		ps = append(ps, flow.One(p))
	}
	as := []*flow.Term{}
	for i := 0; i < sh.given; i++ {
		n := flow.Sym("param", "argument"+itoa(i), nodeT)
		v.nodes = append(v.nodes, n)
		as = append(as, flow.One(n))
	}
	args := flow.Cat(argT, as...)
	if sh.given == 0 {
		args = flow.Nil()
	}
	v.orig = flow.Sym("param", "invoke", inv)
	v.invoke = flow.Sym("upd", "Arguments", inv, v.orig, args)
	v.setup = func(s *flow.State) {
		s.StoreTo(flow.FieldAddr(v.section, "Plugins", plT), flow.Cat(plT, ps...))
		if slow := fieldTypeOf(m.ptr, "SlowInvokeThreshold"); slow != nil && !wide {
			s.StoreTo(flow.FieldAddr(v.recv, "SlowInvokeThreshold", slow), flow.Int(0))
		}
		all := append([]string{"other"}, typeKinds...)
		for _, k := range typeKinds {
			all = append(all, "list of "+k)
		}
		for i, k := range all {
			for _, l := range all[:i] {
				s.Assume(flow.Eq(v.rtype(k), v.rtype(l)), false)
			}
		}
	}
	return v
}

func (v *invokeModel) run(r *flow.Rule) (*flow.Exec, []exitRec) {
	fn := v.m.method("VisitInvoke")
	r.Global = v.typeVar
	x, exits := v.c.run(r, fn, []*flow.Term{v.recv, v.invoke}, v.setup)
	if len(exits) == 0 {
		v.c.V("noexit", fn.Pos(), "with %s, calls never return", v.sh)
	}
	return x, exits
}

// VP reports a violation unless another check is at work.
func (v *invokeModel) VP(key string, pos token.Pos, path string, f string, a ...any) {
	if !v.quiet {
		v.c.VP(key, pos, path, f, a...)
	}
}
