package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// The grammar is read from the tables the parser runs: the composite literal
// of type *grammar in the syntax package.

// gexpr is one expression of the grammar.
type gexpr struct {
	Kind       string // action choice seq label and not opt star plus ref lit class any code
	Pos        token.Pos
	Kids       []*gexpr
	Up         *gexpr
	Rule       *grule
	Label      string
	Lit        string
	Chars      []rune
	Ranges     []rune
	Inverted   bool
	IgnoreCase bool
	Classes    bool // has unicode classes
	Ref        string
	Run        *ssa.Function
	Act        *gaction
}

type grule struct {
	Name string
	Expr *gexpr
	Pos  token.Pos
}

// gaction summarises the function of an action.
type gaction struct {
	Expr  *gexpr
	X     *flow.Exec
	Exits []exitRec
	Facts []gfact
	Text  *flow.Term // the matched text
}

// gfact is a type assertion, index or slicing an action relies on.
type gfact struct {
	What string
	Base *flow.Term
	Idx  *flow.Term
	Typ  types.Type
	St   *flow.State
	Pos  token.Pos
}

type gram struct {
	c     *C
	pk    *packages.Package
	Rules map[string]*grule
	Order []*grule
	Acts  []*gaction
	null  map[*grule]int
	live  map[*grule]bool
}

func newGram(c *C) *gram {
	g := &gram{c: c, pk: c.P.pkg(astPkg), Rules: map[string]*grule{}, null: map[*grule]int{}, live: map[*grule]bool{}}
	if g.pk == nil {
		c.V("anchor:ast", 0, "the syntax package no longer exists")
		panic(abort{})
	}
	var lit *ast.CompositeLit
	for _, f := range g.pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					cl := compLit(v)
					if cl != nil && g.typ(cl) == "grammar" {
						lit = cl
					}
				}
			}
		}
	}
	if lit == nil {
		c.V("anchor:grammar", 0, "the grammar tables no longer exist")
		panic(abort{})
	}
	for _, r := range g.list(g.field(lit, "rules")) {
		cl := compLit(r)
		ru := &grule{Name: g.str(g.field(cl, "name")), Pos: cl.Pos()}
		ru.Expr = g.expr(g.field(cl, "expr"), nil, ru)
		g.Rules[ru.Name] = ru
		g.Order = append(g.Order, ru)
	}
	if len(g.Order) == 0 {
		c.V("anchor:grammar", 0, "the grammar has no rules")
		panic(abort{})
	}
	g.reach(g.Order[0])
	return g
}

func (g *gram) reach(r *grule) {
	if g.live[r] {
		return
	}
	g.live[r] = true
	r.Expr.walk(func(e *gexpr) {
		if n := g.Rules[e.Ref]; e.Kind == "ref" && n != nil {
			g.reach(n)
		}
	})
}

// each calls f for every expression which can be used.
func (g *gram) each(f func(*gexpr)) {
	for _, r := range g.Order {
		if g.live[r] {
			r.Expr.walk(f)
		}
	}
}

func (e *gexpr) walk(f func(*gexpr)) {
	f(e)
	for _, k := range e.Kids {
		k.walk(f)
	}
}

func compLit(e ast.Expr) *ast.CompositeLit {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		return compLit(e.X)
	case *ast.ParenExpr:
		return compLit(e.X)
	case *ast.CompositeLit:
		return e
	}
	return nil
}

// typ is the name of the composite literal's type, pointers removed.
func (g *gram) typ(cl *ast.CompositeLit) string {
	t := g.pk.TypesInfo.TypeOf(cl)
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeName(t)
}

func (g *gram) field(cl *ast.CompositeLit, name string) ast.Expr {
	if cl == nil {
		return nil
	}
	for _, e := range cl.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == name {
				return kv.Value
			}
		}
	}
	return nil
}

func (g *gram) list(e ast.Expr) []ast.Expr {
	if cl := compLit(e); cl != nil {
		return cl.Elts
	}
	return nil
}

func (g *gram) str(e ast.Expr) string {
	if e == nil {
		return ""
	}
	if tv := g.pk.TypesInfo.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value)
	}
	return ""
}

func (g *gram) boolean(e ast.Expr) bool {
	if e == nil {
		return false
	}
	tv := g.pk.TypesInfo.Types[e]
	return tv.Value != nil && tv.Value.Kind() == constant.Bool && constant.BoolVal(tv.Value)
}

func (g *gram) runes(e ast.Expr) []rune {
	out := []rune{}
	for _, x := range g.list(e) {
		if tv := g.pk.TypesInfo.Types[x]; tv.Value != nil {
			if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				out = append(out, rune(n))
			}
		}
	}
	return out
}

var gkinds = map[string]string{
	"actionExpr": "action", "choiceExpr": "choice", "seqExpr": "seq", "labeledExpr": "label", "andExpr": "and", "notExpr": "not",
	"zeroOrOneExpr": "opt", "zeroOrMoreExpr": "star", "oneOrMoreExpr": "plus", "ruleRefExpr": "ref", "litMatcher": "lit",
	"charClassMatcher": "class", "anyMatcher": "any", "andCodeExpr": "code", "notCodeExpr": "code", "stateCodeExpr": "code",
}

func (g *gram) expr(x ast.Expr, up *gexpr, r *grule) *gexpr {
	cl := compLit(x)
	if cl == nil {
		g.c.V("anchor:grammar", r.Pos, "the grammar rule %s cannot be read", r.Name)
		panic(abort{})
	}
	e := &gexpr{Kind: gkinds[g.typ(cl)], Pos: cl.Pos(), Up: up, Rule: r}
	switch e.Kind {
	case "":
		g.c.V("anchor:grammar", cl.Pos(), "the grammar rule %s uses %s, which is not understood", r.Name, g.typ(cl))
		panic(abort{})
	case "choice":
		for _, k := range g.list(g.field(cl, "alternatives")) {
			e.Kids = append(e.Kids, g.expr(k, e, r))
		}
	case "seq":
		for _, k := range g.list(g.field(cl, "exprs")) {
			e.Kids = append(e.Kids, g.expr(k, e, r))
		}
	case "action", "label", "and", "not", "opt", "star", "plus":
		e.Kids = []*gexpr{g.expr(g.field(cl, "expr"), e, r)}
		e.Label = g.str(g.field(cl, "label"))
		if e.Kind == "action" {
			if sel, ok := g.field(cl, "run").(*ast.SelectorExpr); ok {
				if s := g.pk.TypesInfo.Selections[sel]; s != nil {
					if f, ok := s.Obj().(*types.Func); ok {
						e.Run = g.c.P.SSA.FuncValue(f)
					}
				} else if f, ok := g.pk.TypesInfo.Uses[sel.Sel].(*types.Func); ok {
					e.Run = g.c.P.SSA.FuncValue(f)
				}
			}
		}
	case "ref":
		e.Ref = g.str(g.field(cl, "name"))
	case "lit":
		e.Lit = g.str(g.field(cl, "val"))
		e.IgnoreCase = g.boolean(g.field(cl, "ignoreCase"))
	case "class":
		e.Chars = g.runes(g.field(cl, "chars"))
		e.Ranges = g.runes(g.field(cl, "ranges"))
		e.Inverted = g.boolean(g.field(cl, "inverted"))
		e.IgnoreCase = g.boolean(g.field(cl, "ignoreCase"))
		e.Classes = len(g.list(g.field(cl, "classes"))) > 0
	}
	return e
}

// target is the expression a reference stands for; nil if there is none.
func (g *gram) target(e *gexpr) *gexpr {
	if r := g.Rules[e.Ref]; r != nil {
		return r.Expr
	}
	return nil
}

// lookahead: consumes nothing.
func (e *gexpr) lookahead() bool { return e.Kind == "and" || e.Kind == "not" || e.Kind == "code" }

// matches: the class or any-matcher accepts the character.
func (e *gexpr) matches(r rune) bool {
	if e.Kind == "any" {
		return true
	}
	in := false
	for _, c := range e.Chars {
		in = in || c == r
	}
	for i := 0; i+1 < len(e.Ranges); i += 2 {
		in = in || e.Ranges[i] <= r && r <= e.Ranges[i+1]
	}
	return in != e.Inverted
}

// nullable: can succeed without consuming anything.
func (g *gram) nullable(e *gexpr) bool { return g.nullable1(e, map[*grule]bool{}) }

func (g *gram) nullable1(e *gexpr, seen map[*grule]bool) bool {
	switch e.Kind {
	case "opt", "star", "and", "not", "code":
		return true
	case "lit":
		return e.Lit == ""
	case "class", "any":
		return false
	case "seq":
		for _, k := range e.Kids {
			if !g.nullable1(k, seen) {
				return false
			}
		}
		return true
	case "choice":
		for _, k := range e.Kids {
			if g.nullable1(k, seen) {
				return true
			}
		}
		return false
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return false
		}
		seen[r] = true
		n := g.nullable1(r.Expr, seen)
		delete(seen, r)
		return n
	}
	return g.nullable1(e.Kids[0], seen)
}

// minLen is a lower bound of the bytes consumed.
func (g *gram) minLen(e *gexpr) int { return g.minLen1(e, map[*grule]bool{}) }

func (g *gram) minLen1(e *gexpr, seen map[*grule]bool) int {
	switch e.Kind {
	case "opt", "star", "and", "not", "code":
		return 0
	case "lit":
		return len(e.Lit)
	case "class", "any":
		return 1
	case "seq":
		n := 0
		for _, k := range e.Kids {
			n += g.minLen1(k, seen)
		}
		return n
	case "choice":
		n := -1
		for _, k := range e.Kids {
			if m := g.minLen1(k, seen); n < 0 || m < n {
				n = m
			}
		}
		if n < 0 {
			n = 0
		}
		return n
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return 0
		}
		seen[r] = true
		n := g.minLen1(r.Expr, seen)
		delete(seen, r)
		return n
	}
	return g.minLen1(e.Kids[0], seen)
}

// leftmost calls f for the references an expression may try before anything
// is consumed.
func (g *gram) leftmost(e *gexpr, f func(*gexpr)) {
	switch e.Kind {
	case "ref":
		f(e)
	case "seq":
		for _, k := range e.Kids {
			g.leftmost(k, f)
			if !g.nullable(k) {
				return
			}
		}
	default:
		for _, k := range e.Kids {
			g.leftmost(k, f)
		}
	}
}

// can: an expression may consume a character accepted by p; lookaheads aside.
func (g *gram) can(e *gexpr, p func(rune) bool, rs []rune) bool {
	return g.can1(e, p, rs, map[*grule]bool{})
}

func (g *gram) can1(e *gexpr, p func(rune) bool, rs []rune, seen map[*grule]bool) bool {
	switch e.Kind {
	case "and", "not", "code":
		return false
	case "lit":
		for _, r := range e.Lit {
			if p(r) {
				return true
			}
		}
		return false
	case "class", "any":
		for _, r := range rs {
			if p(r) && e.matches(r) {
				return true
			}
		}
		return false
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return false
		}
		seen[r] = true
		return g.can1(r.Expr, p, rs, seen)
	}
	for _, k := range e.Kids {
		if g.can1(k, p, rs, seen) {
			return true
		}
	}
	return false
}

// consumes: the expression may consume that character.
func (g *gram) consumes(e *gexpr, r rune) bool {
	return g.can(e, func(x rune) bool { return x == r }, []rune{r})
}

// blank: consumes spaces, tabs and line breaks only.
func (g *gram) blank(e *gexpr, chars string) bool {
	return g.blank1(e, chars, map[*grule]bool{})
}

func (g *gram) blank1(e *gexpr, chars string, seen map[*grule]bool) bool {
	switch e.Kind {
	case "and", "not", "code":
		return true
	case "lit":
		return strings.Trim(e.Lit, chars) == ""
	case "any":
		return false
	case "class":
		if e.Inverted || e.Classes || len(e.Ranges) > 0 {
			return false
		}
		for _, r := range e.Chars {
			if !strings.ContainsRune(chars, r) {
				return false
			}
		}
		return true
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return r != nil
		}
		seen[r] = true
		ok := g.blank1(r.Expr, chars, seen)
		delete(seen, r)
		return ok
	}
	for _, k := range e.Kids {
		if !g.blank1(k, chars, seen) {
			return false
		}
	}
	return true
}

// strip goes through labels, actions and references to rules.
func (g *gram) strip(e *gexpr) *gexpr {
	for i := 0; i < 20; i++ {
		switch e.Kind {
		case "label", "action":
			e = e.Kids[0]
			continue
		case "ref":
			if t := g.target(e); t != nil {
				e = t
				continue
			}
		case "seq", "choice":
			if len(e.Kids) == 1 {
				e = e.Kids[0]
				continue
			}
		}
		break
	}
	return e
}

// comment: text from {- to -}.
func (g *gram) comment(e *gexpr) bool {
	e = g.strip(e)
	if e.Kind != "seq" {
		return false
	}
	open, end := -1, -1
	for i, k := range e.Kids {
		k = g.strip(k)
		if k.Kind == "lit" && k.Lit == "{-" && open < 0 {
			open = i
		}
		if k.Kind == "lit" && k.Lit == "-}" {
			end = i
		}
	}
	if open < 0 || end != len(e.Kids)-1 || end < open {
		return false
	}
	for _, k := range e.Kids[:open] {
		if !g.blank(k, " \t\r\n") {
			return false
		}
	}
	return true
}

// dropped: consumes only white space and comments.
func (g *gram) dropped(e *gexpr) bool { return g.dropped1(e, map[*grule]bool{}) }

func (g *gram) dropped1(e *gexpr, seen map[*grule]bool) bool {
	if e.lookahead() || g.blank(e, " \t\r\n") || g.comment(e) {
		return true
	}
	switch e.Kind {
	case "lit", "class", "any":
		return false
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return r != nil
		}
		seen[r] = true
		ok := g.dropped1(r.Expr, seen)
		delete(seen, r)
		return ok
	}
	for _, k := range e.Kids {
		if !g.dropped1(k, seen) {
			return false
		}
	}
	return true
}

// always: succeeds on every input.
func (g *gram) always(e *gexpr) bool {
	switch e.Kind {
	case "opt", "star":
		return true
	case "lit":
		return e.Lit == ""
	case "seq":
		for _, k := range e.Kids {
			if !g.always(k) {
				return false
			}
		}
		return true
	case "choice":
		for _, k := range e.Kids {
			if g.always(k) {
				return true
			}
		}
		return false
	case "label", "action", "plus":
		return g.always(e.Kids[0])
	}
	return false
}

// sure: succeeds, comments aside, on every input starting with the character.
func (g *gram) sure(e *gexpr, r rune) bool { return g.sure1(e, r, map[*grule]bool{}) }

func (g *gram) sure1(e *gexpr, r rune, seen map[*grule]bool) bool {
	switch e.Kind {
	case "opt", "star":
		return true
	case "class", "any":
		return e.matches(r)
	case "lit":
		return e.Lit == "" || e.Lit == string(r)
	case "choice":
		for _, k := range e.Kids {
			if g.sure1(k, r, seen) {
				return true
			}
		}
		return false
	case "seq":
		for i, k := range e.Kids {
			if g.always(k) && (len(k.Kids) > 0 && g.comment(k.Kids[0]) || !g.consumes(k, r)) {
				continue
			}
			if !g.sure1(k, r, seen) || g.nullable(k) {
				return false
			}
			for _, rest := range e.Kids[i+1:] {
				if !g.always(rest) {
					return false
				}
			}
			return true
		}
		return true
	case "label", "action", "plus":
		return g.sure1(e.Kids[0], r, seen)
	case "ref":
		ru := g.Rules[e.Ref]
		if ru == nil || seen[ru] {
			return false
		}
		seen[ru] = true
		ok := g.sure1(ru.Expr, r, seen)
		delete(seen, ru)
		return ok
	}
	return false
}

// language is the set of texts matched if it is small; nil otherwise. Texts
// hidden by an earlier alternative which is a prefix are left out.
func (g *gram) language(e *gexpr) map[string]bool { return g.language1(e, map[*grule]bool{}) }

func (g *gram) language1(e *gexpr, seen map[*grule]bool) map[string]bool {
	switch e.Kind {
	case "lit":
		if e.IgnoreCase {
			return nil
		}
		return map[string]bool{e.Lit: true}
	case "class":
		if e.Inverted || e.Classes || len(e.Ranges) > 0 || len(e.Chars) > 6 || e.IgnoreCase {
			return nil
		}
		out := map[string]bool{}
		for _, c := range e.Chars {
			out[string(c)] = true
		}
		return out
	case "label", "action":
		return g.language1(e.Kids[0], seen)
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return nil
		}
		seen[r] = true
		l := g.language1(r.Expr, seen)
		delete(seen, r)
		return l
	case "opt":
		l := g.language1(e.Kids[0], seen)
		if l == nil {
			return nil
		}
		out := map[string]bool{"": true}
		for s := range l {
			out[s] = true
		}
		return out
	case "choice":
		out := map[string]bool{}
		for _, k := range e.Kids {
			l := g.language1(k, seen)
			if l == nil {
				return nil
			}
			add := []string{}
			for s := range l {
				hidden := false
				for o := range out {
					hidden = hidden || o != s && strings.HasPrefix(s, o)
				}
				if !hidden {
					add = append(add, s)
				}
			}
			for _, s := range add {
				out[s] = true
			}
		}
		return out
	case "seq":
		return g.product(e.Kids, seen)
	}
	return nil
}

func (g *gram) product(es []*gexpr, seen map[*grule]bool) map[string]bool {
	out := map[string]bool{"": true}
	for _, k := range es {
		if k.lookahead() {
			return nil
		}
		l := g.language1(k, seen)
		if l == nil {
			return nil
		}
		n := map[string]bool{}
		for a := range out {
			for b := range l {
				n[a+b] = true
			}
		}
		if len(n) > 64 {
			return nil
		}
		out = n
	}
	return out
}

// label is the value bound to a label in an action, as a term.
func labelOf(t *flow.Term) (string, bool) {
	for t.Op == "ta" {
		t = t.Args[0]
	}
	if t.Op == "lookup" && len(t.Args) == 2 {
		return t.Args[1].IsStr()
	}
	return "", false
}

// labels are the labels bound inside an action, in order.
func (g *gram) labels(e *gexpr) []*gexpr {
	out := []*gexpr{}
	var w func(*gexpr)
	w = func(k *gexpr) {
		switch k.Kind {
		case "label":
			out = append(out, k)
			return
		case "and", "not":
			return
		}
		for _, n := range k.Kids {
			w(n)
		}
	}
	for _, k := range e.Kids {
		w(k)
	}
	return out
}

// actions summarises the function of every action.
func (g *gram) actions() {
	c := g.c
	parser := c.P.named(astPkg, "parser")
	g.each(func(e *gexpr) {
		if e.Kind != "action" {
			return
		}
		if e.Run == nil || len(e.Run.Blocks) == 0 || parser == nil {
			c.V("anchor:action", e.Pos, "an action of the grammar rule %s is not known", e.Rule.Name)
			panic(abort{})
		}
		a := &gaction{Expr: e}
		e.Act = a
		g.Acts = append(g.Acts, a)
		p := flow.Sym("param", "parser", e.Run.Params[0].Type())
		curT := fieldTypeOf(p.Typ, "cur")
		a.Text = flow.Field(flow.Field(p, "cur", curT), "text", fieldTypeOf(curT, "text"))
		note := func(s *flow.State, what string, base, idx *flow.Term, t types.Type, pos token.Pos) {
			if base.Op == "alloc" || base.Op == "field" && base.Args[0] == p {
				return // the runtime's own stack
			}
			a.Facts = append(a.Facts, gfact{what, base, idx, t, s.Clone(), pos})
		}
		r := &flow.Rule{Keep: loopSyms, Instr: func(x *flow.Exec, s *flow.State, i ssa.Instruction) {
			if c.mute {
				a.Facts = nil
				return
			}
			switch i := i.(type) {
			case *ssa.TypeAssert:
				if !i.CommaOk {
					note(s, "assert", x.Val(s, i.X), nil, i.AssertedType, i.Pos())
				}
			case *ssa.IndexAddr:
				if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
					note(s, "index", x.Val(s, i.X), x.Val(s, i.Index), nil, i.Pos())
				}
			case *ssa.Index:
				note(s, "index", x.Val(s, i.X), x.Val(s, i.Index), nil, i.Pos())
			case *ssa.Lookup:
				if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
					note(s, "index", x.Val(s, i.X), x.Val(s, i.Index), nil, i.Pos())
				}
			case *ssa.Slice:
				if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
					return
				}
				if i.Low != nil {
					note(s, "from", x.Val(s, i.X), x.Val(s, i.Low), nil, i.Pos())
				}
				if i.High != nil {
					note(s, "to", x.Val(s, i.X), x.Val(s, i.High), nil, i.Pos())
				}
			}
		}, Call: c.builder, Panic: func(x *flow.Exec, s *flow.State, pos token.Pos) {
			note(s, "panic", flow.Nil(), nil, nil, pos)
		}}
		x := c.exec(r)
		x.Opaque = nil
		x.OnPass = func(p int) {
			c.mute = p == 0
			c.exits = nil
			a.Facts = nil
		}
		r.Return = func(x *flow.Exec, s *flow.State, res []*flow.Term, pos token.Pos) {
			c.exits = append(c.exits, exitRec{s, res, pos})
		}
		c.exits = nil
		x.Run(e.Run, []*flow.Term{p}, nil)
		c.done(x)
		a.X, a.Exits = x, c.exits
		c.exits = nil
	})
}

// gval is one kind of value an expression yields.
type gval struct {
	Kind string // nil bytes list seq type
	Typ  types.Type
	Src  *gexpr // element expression, or where the bytes come from
	Act  *gaction
	Exit int
}

func (v gval) String() string {
	switch v.Kind {
	case "type":
		return typeName(v.Typ)
	case "list", "seq":
		return "a list"
	case "bytes":
		return "bare text"
	}
	return v.Kind
}

// values lists what an expression may yield when it succeeds.
func (g *gram) values(e *gexpr) []gval {
	out := map[gval]bool{}
	g.values1(e, map[*grule]bool{}, out)
	res := []gval{}
	for v := range out {
		res = append(res, v)
	}
	return res
}

func (g *gram) values1(e *gexpr, seen map[*grule]bool, out map[gval]bool) {
	switch e.Kind {
	case "and", "not", "code":
		out[gval{Kind: "nil"}] = true
	case "lit", "class", "any":
		out[gval{Kind: "bytes", Src: e}] = true
	case "seq":
		out[gval{Kind: "seq", Src: e}] = true
	case "star", "plus":
		out[gval{Kind: "list", Src: e}] = true
	case "opt":
		out[gval{Kind: "nil"}] = true
		g.values1(e.Kids[0], seen, out)
	case "choice":
		for _, k := range e.Kids {
			g.values1(k, seen, out)
		}
	case "label":
		g.values1(e.Kids[0], seen, out)
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return
		}
		seen[r] = true
		g.values1(r.Expr, seen, out)
		delete(seen, r)
	case "action":
		if e.Act == nil {
			return
		}
		for i, ex := range e.Act.Exits {
			if errPath(ex.St, ex.Res) {
				continue
			}
			v := ex.Res[0]
			if v.IsNil() {
				out[gval{Kind: "nil"}] = true
				continue
			}
			if name, ok := labelOf(v); ok {
				for _, l := range g.labels(e) {
					if l.Label == name {
						sub := map[gval]bool{}
						g.values1(l.Kids[0], seen, sub)
						for s := range sub {
							if s.Kind == "nil" && ex.St.IsNil(v) == 0 || s.Kind != "nil" && ex.St.IsNil(v) == 1 {
								continue
							}
							out[s] = true
						}
					}
				}
				continue
			}
			if v.Op == "iface" {
				out[gval{Kind: "type", Typ: v.Typ, Act: e.Act, Exit: i}] = true
				continue
			}
			out[gval{Kind: "unknown"}] = true
		}
	}
}

// domain lists the values a term of an action may have; nil if not known.
func (g *gram) domain(a *gaction, s *flow.State, t *flow.Term) []gval {
	return g.domain1(a, s, t, 0)
}

func (g *gram) domain1(a *gaction, s *flow.State, t *flow.Term, depth int) []gval {
	if depth > 12 {
		return nil
	}
	if t.Op == "ta" {
		return g.domain1(a, s, t.Args[0], depth+1)
	}
	if t.IsNil() {
		return []gval{{Kind: "nil"}}
	}
	if t.Op == "iface" {
		out := []gval{}
		for _, v := range g.domain1(a, s, unwrap(t), depth+1) {
			if v.Kind == "type" && types.Identical(v.Typ, t.Typ) {
				out = append(out, v)
			}
		}
		if len(out) == 0 {
			out = []gval{{Kind: "type", Typ: t.Typ}}
		}
		return out
	}
	if name, ok := labelOf(t); ok {
		out := []gval{}
		found := false
		for _, l := range g.labels(a.Expr) {
			if l.Label != name {
				continue
			}
			found = true
			for _, v := range g.values(l.Kids[0]) {
				if v.Kind == "nil" && s.IsNil(t) == 0 || v.Kind != "nil" && s.IsNil(t) == 1 {
					continue
				}
				out = append(out, v)
			}
		}
		if !found {
			return nil
		}
		return out
	}
	if t.Op == "elem" {
		return g.elemsOf(a, s, t.Args[0], t.Args[1], depth+1)
	}
	return nil
}

// elemsOf lists the values of the elements of a list.
func (g *gram) elemsOf(a *gaction, s *flow.State, base, idx *flow.Term, depth int) []gval {
	if depth > 12 {
		return nil
	}
	n, isN := idx.IsInt()
	raw := base
	for raw.Op == "ta" || raw.Op == "iface" {
		raw = raw.Args[0]
	}
	if _, ok := labelOf(raw); ok || raw.Op == "elem" {
		out := []gval{}
		dom := g.domain1(a, s, raw, depth+1)
		if len(dom) == 0 {
			return nil
		}
		for _, v := range dom {
			switch v.Kind {
			case "list":
				out = append(out, g.values(v.Src.Kids[0])...)
			case "seq":
				for i, k := range v.Src.Kids {
					if !isN || int(n) == i {
						out = append(out, g.values(k)...)
					}
				}
			case "type":
				if v.Act == nil {
					return nil
				}
				ex := v.Act.Exits[v.Exit]
				sub := g.pieceVals(v.Act, ex.St, ex.Res[0], idx, depth+1)
				if sub == nil {
					return nil
				}
				out = append(out, sub...)
			default:
				return nil
			}
		}
		return out
	}
	return g.pieceVals(a, s, raw, idx, depth+1)
}

// pieceVals lists the values of the elements of a list made by an action.
func (g *gram) pieceVals(a *gaction, s *flow.State, t, idx *flow.Term, depth int) []gval {
	ps, ok := pieces(a.X, unwrap(t))
	if !ok || len(ps) == 0 {
		return nil
	}
	n, isN := idx.IsInt()
	out := []gval{}
	var add func(p piece, st *flow.State) bool
	add = func(p piece, st *flow.State) bool {
		var vs []gval
		switch {
		case p.One != nil:
			vs = g.domain1(a, st, p.One, depth+1)
		case p.Spread != nil:
			if p.Spread == unwrap(t) {
				return false
			}
			vs = g.elemsOf(a, st, p.Spread, flow.Sym("any", "", types.Typ[types.Int]), depth+1)
		default:
			for _, it := range p.Loop.It {
				for _, q := range it.Parts {
					if !add(q, it.St) {
						return false
					}
				}
			}
			return true
		}
		if vs == nil {
			return false
		}
		out = append(out, vs...)
		return true
	}
	for i, p := range ps {
		if isN && p.One != nil {
			if int(n) == i {
				out = nil
				if !add(p, s) {
					return nil
				}
				return out
			}
			if i < int(n) {
				continue
			}
		}
		if !add(p, s) {
			return nil
		}
		if isN && p.One == nil {
			isN = false
		}
	}
	return out
}

// atLeast is a lower bound of the length of a list or text term.
func (g *gram) atLeast(a *gaction, s *flow.State, t *flow.Term, depth int) int {
	if depth > 8 {
		return 0
	}
	for t.Op == "ta" || t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	if t == a.Text {
		return g.minLen(a.Expr.Kids[0])
	}
	if _, ok := labelOf(t); ok || t.Op == "elem" {
		min := -1
		for _, v := range g.domain1(a, s, t, depth+1) {
			n := 0
			switch v.Kind {
			case "list":
				if v.Src.Kind == "plus" {
					n = 1
				}
			case "seq":
				n = len(v.Src.Kids)
			case "bytes":
				n = g.minLen(v.Src)
			case "type":
				if v.Act != nil {
					n = g.atLeast(v.Act, v.Act.Exits[v.Exit].St, v.Act.Exits[v.Exit].Res[0], depth+1)
				}
			}
			if min < 0 || n < min {
				min = n
			}
		}
		if min < 0 {
			return 0
		}
		return min
	}
	if str, ok := t.IsStr(); ok {
		return len(str)
	}
	n := 0
	if ps, ok := pieces(a.X, t); ok {
		for _, p := range ps {
			switch {
			case p.One != nil:
				n++
			case p.Spread != nil && p.Spread != t:
				n += g.atLeast(a, s, p.Spread, depth+1)
			case p.Loop != nil && p.Loop.Over != nil && !p.Loop.left(s):
				all := len(p.Loop.It) > 0
				for _, it := range p.Loop.It {
					all = all && !it.Same && len(it.Parts) > 0 && it.Parts[0].One != nil
				}
				if all {
					n += g.atLeast(a, s, p.Loop.Over, depth+1)
				}
			}
		}
	}
	return n
}
