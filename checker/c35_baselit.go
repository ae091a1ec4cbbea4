package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

const basePkg = mod + "/baselit"

func init() {
	register(checkDef{
		ID: "C35", Title: "The built-in functions put everything they are given into their result",
		Rule:  "Every content-making method of the basic plugin is summarised as a term over its arguments; on every successful exit each field of the content made must be the argument the table names for it (all items in order, by spread or by a loop covering every item), fields not named must be empty, and the value has the type named. Methods setting options are summarised by their effects: every store to a section must go to the plugin's own section, and the option must have the given value on every exit.",
		Trust: []string{},
		Run:   runC35,
	})
}

// basePlugin describes the basic plugin.
type basePlugin struct {
	c    *C
	ch   *chain
	typ  *types.Named
	self string
	secN *types.Named
}

func newBasePlugin(c *C) *basePlugin {
	b := &basePlugin{c: c, ch: newChain(c), typ: c.P.named(basePkg, "Plugin"), secN: c.P.named(mod, "Section")}
	if b.typ != nil {
		s := structOf(b.typ)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if b.ch.isSec(s.Field(i).Type()) {
				b.self = s.Field(i).Name()
			}
		}
	}
	if b.self == "" {
		c.V("anchor:Plugin", 0, "the basic plugin no longer has a section")
		panic(abort{})
	}
	return b
}

// method is a method with its receiver, the plugin's section and arguments.
func (b *basePlugin) method(name string) (fn *ssa.Function, args []*flow.Term, sec *flow.Term) {
	fn = b.c.meth(basePkg, "Plugin", name)
	recv := flow.Sym("param", "plugin", fn.Params[0].Type())
	sec = flow.Field(recv, b.self, b.ch.secT)
	args = []*flow.Term{recv}
	for i, p := range fn.Params[1:] {
		args = append(args, flow.Sym("param", "arg"+itoa(i), p.Type()))
	}
	return
}

// sectionStores reports stores to sections.
func (b *basePlugin) sectionStores(f func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction)) func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
	return func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
		a := addr
		field := ""
		for a.Op == "fa" || a.Op == "ia" {
			if a.Op == "fa" {
				field = a.Str
			}
			a = a.Args[0]
		}
		if a.Typ != nil && b.ch.isSec(a.Typ) && field != "" {
			f(x, s, a, field, v, instr)
		}
	}
}

// listOf decides whether t holds what f makes of every element of over, in
// order; f nil for the elements themselves.
func listOf(x *flow.Exec, s *flow.State, t, over *flow.Term, f func(s *flow.State, made, elem *flow.Term) string) string {
	t = unwrap(t)
	if t == over && f == nil {
		return ""
	}
	if t.IsNil() && s.Decide(flow.Eq(flow.Len(over), flow.Int(0))) == 1 {
		return ""
	}
	ps, ok := pieces(x, t)
	if want, wok := pieces(x, over); f == nil && ok && wok && len(ps) == len(want) {
		same := true
		for i := range ps {
			a, b := ps[i], want[i]
			same = same && a.Loop == nil && b.Loop == nil && a.Spread == b.Spread && (a.One == b.One || a.One != nil && b.One != nil && unwrap(a.One) == unwrap(b.One))
		}
		if same {
			return ""
		}
	}
	if !ok {
		return "is not shown to hold everything (" + t.String() + ")"
	}
	if len(ps) != 1 {
		if len(ps) == 0 && s.Decide(flow.Eq(flow.Len(over), flow.Int(0))) == 1 {
			return ""
		}
		return "is put together from " + itoa(len(ps)) + " parts (" + t.String() + ")"
	}
	p := ps[0]
	if p.Spread != nil {
		if p.Spread == over && f == nil {
			return ""
		}
		return "holds the elements of " + p.Spread.String()
	}
	if p.Loop == nil {
		return "holds just " + p.One.String()
	}
	l := p.Loop
	if l.Over != over {
		return "is made from " + termStr(l.Over)
	}
	if l.left(s) {
		return "is made by a loop which can end early"
	}
	for _, it := range l.It {
		if it.Same || len(it.Parts) != 1 || it.Parts[0].One == nil {
			return "is made by a loop which can leave out an element (" + it.St.Path() + ")"
		}
		made := it.Parts[0].One
		if f != nil {
			if why := f(it.St, made, l.Elem); why != "" {
				return "has elements where " + why
			}
		} else if unwrap(made) != unwrap(l.Elem) {
			return "has " + made.String() + " for " + l.Elem.String()
		}
	}
	return ""
}

// madeField is what a field of made content must be.
type madeField func(x *flow.Exec, s *flow.State, v *flow.Term) string

func is(want *flow.Term) madeField {
	return func(x *flow.Exec, s *flow.State, v *flow.Term) string {
		if unwrap(v) == unwrap(want) || s.Decide(flow.Eq(unwrap(v), unwrap(want))) == 1 {
			return ""
		}
		return "is " + v.String() + " instead of " + want.String()
	}
}

func all(want *flow.Term) madeField {
	return func(x *flow.Exec, s *flow.State, v *flow.Term) string { return listOf(x, s, v, want, nil) }
}

// isZero: the zero value of its type.
func isZero(s *flow.State, v *flow.Term, typ types.Type) bool {
	if v.IsNil() || v == flow.ZeroOf(typ) {
		return true
	}
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !isZero(s, flow.Field(v, f.Name(), f.Type()), f.Type()) {
				return false
			}
		}
		return true
	}
	return s.Decide(flow.Eq(v, flow.ZeroOf(typ))) == 1
}

// made checks a struct of the module against a table of fields.
func (b *basePlugin) made(x *flow.Exec, s *flow.State, v *flow.Term, typ string, want map[string]madeField) string {
	n := b.c.P.named(mod, typ)
	if n == nil {
		return "there is no " + typ
	}
	dyn := v.Typ
	if v.Op == "iface" {
		dyn = v.Args[0].Typ
	}
	val := unwrap(v)
	if val.Typ != nil {
		dyn = val.Typ
	}
	if dyn == nil {
		return "is " + v.String()
	}
	if p, ok := dyn.Underlying().(*types.Pointer); ok {
		dyn = p.Elem()
	}
	if !types.Identical(dyn, n) {
		return "is a " + typeName(dyn) + " instead of a " + typ
	}
	st := structOf(n)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		got := get(s, v, f.Name(), f.Type())
		if w := want[f.Name()]; w != nil {
			if why := w(x, s, got); why != "" {
				return "has a " + f.Name() + " which " + why
			}
		} else if !isZero(s, got, f.Type()) {
			return "has " + f.Name() + " " + got.String()
		}
	}
	return ""
}

func (b *basePlugin) constant(name string) *flow.Term {
	o, ok := b.c.P.Pkgs[mod].Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		b.c.V("anchor:"+name, 0, "constant %s no longer exists", name)
		panic(abort{})
	}
	return flow.ConstOf(o.Val(), o.Type())
}

func runC35(c *C) {
	b := newBasePlugin(c)
	conT := c.P.named(mod, "Content")
	strT := types.Typ[types.String]
	loc := func(sec *flow.Term) *flow.Term {
		return flow.Field(sec, "InvokeLocation", fieldTypeOf(b.secN, "InvokeLocation"))
	}
	elem := func(l *flow.Term, i int64, t types.Type) *flow.Term { return flow.Elem(l, flow.Int(i), t) }
	// content-making functions
	type maker struct {
		typ   string
		want  func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField
		cases func(a []*flow.Term) []*flow.Term
	}
	styled := func(style string) maker {
		return maker{typ: "Styled", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Style": is(b.constant(style)), "Content": is(a[0])}
		}}
	}
	list := func(ordered bool) maker {
		return maker{typ: "List", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Items": all(a[0]), "Ordered": is(flow.Bool(ordered))}
		}}
	}
	// the number of optional arguments
	count := func(l func(a []*flow.Term) *flow.Term, max int64) func(a []*flow.Term) []*flow.Term {
		return func(a []*flow.Term) []*flow.Term {
			out := []*flow.Term{}
			for n := int64(0); n <= max; n++ {
				out = append(out, flow.Eq(flow.Len(l(a)), flow.Int(n)))
			}
			return out
		}
	}
	second := func(a []*flow.Term) *flow.Term { return a[1] }
	has := func(s *flow.State, l *flow.Term, n int64) bool {
		return s.Decide(flow.Lt(flow.Len(l), flow.Int(n))) == 0
	}
	makers := map[string]maker{
		"Code": styled("StyleVerbatim"), "Italic": styled("StyleItalic"), "Bold": styled("StyleBold"),
		"Larger": styled("StyleLarger"), "Smaller": styled("StyleSmaller"), "Strike": styled("StyleStrike"),
		"Superscript": styled("StyleSuperscript"), "Subscript": styled("StyleSubscript"),
		"Inset": styled("StyleInset"), "Aside": styled("StyleAside"),
		"Aux": {typ: "Aux", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Content": is(a[0])}
		}},
		"Link": {typ: "Link", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Content": is(a[0]), "Target": is(a[1])}
		}},
		"TableOfContents": {typ: "TableOfContents", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Section": is(sec)}
		}},
		"Reference": {typ: "Reference", cases: count(second, 1), want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			w := map[string]madeField{"Section": is(sec), "TagName": is(a[0]), "Location": is(loc(sec))}
			if has(s, a[1], 1) {
				w["Content"] = is(elem(a[1], 0, conT))
			}
			return w
		}},
		"Target": {typ: "Target", cases: count(second, 2), want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			w := map[string]madeField{"TagName": is(a[0]), "Location": is(loc(sec)), "Title": is(a[0])}
			if has(s, a[1], 1) {
				w["Title"] = is(elem(a[1], 0, conT))
			}
			if has(s, a[1], 2) {
				w["Content"] = is(elem(a[1], 1, conT))
			}
			return w
		}},
		"Image": {typ: "Image", cases: count(second, 1), want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			w := map[string]madeField{"Path": is(a[0])}
			if has(s, a[1], 1) {
				w["Description"] = is(elem(a[1], 0, strT))
			}
			return w
		}},
		"List": list(false), "OrderedList": list(true), "TableRow": list(false),
		"Definition": {typ: "List", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
			return map[string]madeField{"Items": all(flow.Cat(nil, flow.One(a[0]), flow.One(a[1])))}
		}},
	}
	listN := c.P.named(mod, "List")
	itemsT := fieldTypeOf(listN, "Items")
	itemsOf := func(e *flow.Term) *flow.Term {
		return flow.Field(flow.TypeAssert(e, listN), "Items", itemsT)
	}
	makers["Table"] = maker{typ: "Table", want: func(sec *flow.Term, a []*flow.Term, s *flow.State) map[string]madeField {
		return map[string]madeField{"Rows": func(x *flow.Exec, s *flow.State, v *flow.Term) string {
			return listOf(x, s, v, a[0], func(is *flow.State, made, e *flow.Term) string {
				if is.Decide(flow.TypeIs(e, listN)) != 1 {
					return "a row need not be a list"
				}
				return listOf(x, is, made, itemsOf(e), nil)
			})
		}}
	}}
	names := sortedKeys(makers)
	names = append(names, "Definitions")
	sort.Strings(names)
	for _, name := range names {
		m := makers[name]
		fn, args, sec := b.method(name)
		call := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) { return nil, false }
		r := &flow.Rule{Keep: loopSyms, Call: call}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			c.VP("store:"+name, instr.Pos(), s.Path(), "%s sets %s of a section", name, field)
		})
		r.Instr = func(x *flow.Exec, s *flow.State, i ssa.Instruction) {
			ta, ok := i.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				return
			}
			if v := x.Val(s, ta.X); s.Decide(flow.TypeIs(v, ta.AssertedType)) != 1 && !(v.Op == "iface" && types.Identical(v.Args[0].Typ, ta.AssertedType)) {
				c.VP("crash:"+name, i.Pos(), s.Path(), "%s crashes unless %s is a %s", name, v, typeName(ta.AssertedType))
			}
		}
		x, exits := c.run(r, fn, args, nil)
		good := 0
		for _, e := range exits {
			if len(e.Res) == 2 && errPath(e.St, e.Res[1:]) {
				// only if an item is not of the kind needed
				c.Obl("refusals")
				if !refusal(x, e, args[1], listN, name == "Definitions", itemsOf) {
					c.VP("refuse:"+name, e.Pos, e.St.Path(), "%s can fail although it was given lists", name)
				}
				continue
			}
			states := []*flow.State{e.St}
			if m.cases != nil {
				states = nil
				for _, f := range m.cases(args[1:]) {
					if s := consistent(e.St, f); s != nil {
						states = append(states, s)
					}
				}
			}
			for _, s := range states {
				good++
				c.Obl("results")
				res := e.Res[0]
				why := ""
				if name == "Definitions" {
					defN := c.P.named(mod, "Definition")
					why = listOf(x, s, res, args[1], func(is *flow.State, made, ev *flow.Term) string {
						if is.Decide(flow.TypeIs(ev, listN)) != 1 {
							return "an item need not be a list"
						}
						if is.Decide(flow.Eq(flow.Len(itemsOf(ev)), flow.Int(2))) != 1 {
							return "an item need not have two entries"
						}
						for i, f := range []string{"Subject", "Definition"} {
							want := elem(itemsOf(ev), int64(i), conT)
							if got := get(is, made, f, fieldTypeOf(defN, f)); unwrap(got) != want {
								return f + " is " + got.String() + " instead of " + want.String()
							}
						}
						return ""
					})
				} else {
					why = b.made(x, s, res, m.typ, m.want(sec, args[1:], s))
				}
				if why != "" {
					c.VP("result:"+name, e.Pos, s.Path(), "the result of %s %s", name, why)
				}
			}
		}
		if good == 0 {
			c.V("result:"+name, fn.Pos(), "%s never succeeds", name)
		}
		c.Sample("%s: %d exits", name, len(exits))
	}
	// options
	type option struct {
		field string
		value func(a []*flow.Term) *flow.Term
	}
	opts := map[string]option{
		"Styled":                          {"Style", func(a []*flow.Term) *flow.Term { return a[0] }},
		"OmitChildrenFromTableOfContents": {"OmitChildrenFromTableOfContents", func(a []*flow.Term) *flow.Term { return flow.Bool(true) }},
		"SetPartial":                      {"Partials", nil},
	}
	for _, name := range sortedKeys(opts) {
		o := opts[name]
		fn, args, sec := b.method(name)
		typ := fieldTypeOf(b.secN, o.field)
		r := &flow.Rule{Keep: loopSyms}
		r.Store = b.sectionStores(func(x *flow.Exec, s *flow.State, base *flow.Term, field string, v *flow.Term, instr ssa.Instruction) {
			if base != sec {
				c.VP("store:"+name, instr.Pos(), s.Path(), "%s sets %s of %s, not of the section it is called in", name, field, base)
			} else if field != o.field {
				c.VP("store:"+name, instr.Pos(), s.Path(), "%s sets %s", name, field)
			}
		})
		r.MapUpdate = func(x *flow.Exec, s *flow.State, m, k, v *flow.Term, instr ssa.Instruction) {
			s.AddSticky("set", m, k, v)
		}
		_, exits := c.run(r, fn, args, nil)
		if len(exits) == 0 {
			c.V("option:"+name, fn.Pos(), "%s never succeeds", name)
		}
		for _, e := range exits {
			if errPath(e.St, e.Res) {
				c.VP("option:"+name, e.Pos, e.St.Path(), "%s can fail", name)
				continue
			}
			c.Obl("options")
			got := e.St.LoadField(sec, o.field, typ)
			if o.value != nil {
				if want := o.value(args[1:]); unwrap(got) != want && e.St.Decide(flow.Eq(got, want)) != 1 {
					c.VP("option:"+name, e.Pos, e.St.Path(), "%s leaves %s as %s instead of %s", name, o.field, got, want)
				}
				continue
			}
			sets := e.St.Items("set")
			ok := len(sets) == 1
			for _, it := range sets {
				ok = ok && it.Terms[0] == got && it.Terms[1] == args[1] && unwrap(it.Terms[2]) == unwrap(args[2])
				if got != flow.Field(sec, o.field, typ) && e.St.IsNil(flow.Field(sec, o.field, typ)) != 1 && e.St.Decide(flow.Eq(flow.Len(flow.Field(sec, o.field, typ)), flow.Int(0))) != 1 {
					ok = false
				}
			}
			if !ok {
				c.VP("option:"+name, e.Pos, e.St.Path(), "%s does not keep the content under its name", name)
			}
		}
	}
	// partials are found under their name
	for _, t := range []string{"Section", "Styled"} {
		fn := c.meth(mod, t, "Partial")
		recv := flow.Sym("param", "con", fn.Params[0].Type())
		name := flow.Sym("param", "name", strT)
		_, exits := c.run(nil, fn, []*flow.Term{recv, name}, nil)
		n := c.P.named(mod, t)
		pt := fieldTypeOf(n, "Partials")
		parts := flow.Field(recv, "Partials", pt)
		for _, e := range exits {
			c.Obl("partials found")
			want := flow.Sym("lookup", "", pt.Underlying().(*types.Map).Elem(), parts, name)
			if e.Res[0] == want || e.Res[0].IsNil() && (e.St.Decide(flow.Eq(flow.Len(parts), flow.Int(0))) == 1 || e.St.IsNil(parts) == 1 || e.St.Decide(foundTerm(want)) == 0 || e.St.IsNil(want) == 1) {
				continue
			}
			c.VP("partial:"+t, e.Pos, e.St.Path(), "Partial yields %s", e.Res[0])
		}
	}
	c.Need("results", 15)
	c.Need("options", 2)
	c.Need("partials found", 2)
}

// foundTerm is the second result of a map lookup.
func foundTerm(lookup *flow.Term) *flow.Term {
	return flow.Sym("haskey", "", types.Typ[types.Bool], lookup.Args...)
}

// refusal: an error because an item is not a list, or of the wrong length.
func refusal(x *flow.Exec, e exitRec, items *flow.Term, listN types.Type, two bool, itemsOf func(e *flow.Term) *flow.Term) bool {
	for _, sum := range x.LoopSums {
		over, el, _ := sumElem(x, sum)
		if over != items {
			continue
		}
		if e.St.Decide(flow.TypeIs(el, listN)) == 0 {
			return true
		}
		if two && e.St.Decide(flow.Eq(flow.Len(itemsOf(el)), flow.Int(2))) == 0 {
			return true
		}
	}
	return false
}
