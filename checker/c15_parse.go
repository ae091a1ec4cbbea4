package main

import (
	"go/types"
	"sort"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C15", Title: "Parsing any input yields a document or a located error, and never panics",
		Rule:  "The grammar is read from the tables the parser runs. Every reference must name a rule; no rule may reach itself without consuming input; no repetition may repeat an expression which can match nothing. For every expression the kinds of values it yields are inferred from the actions' summaries (absent, text, list of ..., syntax node of a type); every type assertion, index and slice in an action and its helpers must be safe for every such value, given the path's conditions; actions must not panic. The document's value must be a syntax node wherever it is asserted to be one. Errors of the parser must be unpacked and returned with the parser's position.",
		Trust: []string{"the parser runtime in the generated file interprets the tables as documented (including turning its own errors into located errors)"},
		Run:   runC15,
	})
}

func runC15(c *C) {
	g := newGram(c)
	g.actions()
	g.wellFormed()
	g.safe()
	g.root()
	l := newLocator(c)
	l.files()
	l.unpacking()
}

func (g *gram) wellFormed() {
	c := g.c
	g.each(func(e *gexpr) {
		switch e.Kind {
		case "ref":
			c.Obl("references")
			if g.Rules[e.Ref] == nil {
				c.V("norule:"+e.Rule.Name+":"+e.Ref, e.Pos, "the grammar rule %s refers to %q, which is not a rule", e.Rule.Name, e.Ref)
			}
		case "star", "plus":
			c.Obl("repetitions")
			if g.nullable(e.Kids[0]) {
				c.V("endless:"+e.Rule.Name, e.Pos, "the grammar rule %s repeats an expression which can match nothing: parsing never ends once it does", e.Rule.Name)
			}
		}
	})
	for _, r := range g.Order {
		if !g.live[r] {
			continue
		}
		c.Obl("rules")
		seen := map[*grule]bool{}
		var path []string
		var visit func(*grule) bool
		visit = func(q *grule) bool {
			if seen[q] {
				return false
			}
			seen[q] = true
			path = append(path, q.Name)
			found := false
			g.leftmost(q.Expr, func(e *gexpr) {
				if found {
					return
				}
				n := g.Rules[e.Ref]
				if n == r {
					found = true
				} else if n != nil && visit(n) {
					found = true
				}
			})
			if !found {
				path = path[:len(path)-1]
			}
			return found
		}
		if visit(r) {
			c.V("leftrec:"+r.Name, r.Pos, "the grammar rule %s reaches itself without consuming input (%s): parsing recurses forever", r.Name, strings.Join(path, " -> "))
		}
	}
	c.Need("references", 2)
	c.Need("repetitions", 2)
	c.Need("rules", 2)
}

// safe checks what the actions rely on.
func (g *gram) safe() {
	c := g.c
	for _, a := range g.Acts {
		c.Obl("actions")
		rule := a.Expr.Rule.Name
		for _, f := range a.Facts {
			switch f.What {
			case "panic":
				c.VP("panics:"+rule, f.Pos, f.St.Path(), "the action of the grammar rule %s panics", rule)
			case "assert":
				c.Obl("assertions")
				dom := g.domain(a, f.St, f.Base)
				if dom == nil {
					if f.St.Decide(flow.TypeIs(f.Base, f.Typ)) == 1 {
						continue
					}
					c.VP("assert:"+rule, f.Pos, f.St.Path(), "an action of the grammar rule %s asserts that %s is a %s, which is not shown", rule, f.Base, typeName(f.Typ))
					continue
				}
				bad := []string{}
				for _, v := range dom {
					if !g.has(v, f.Typ) && g.possible(f.St, f.Base, v) {
						bad = append(bad, v.String())
					}
				}
				sort.Strings(bad)
				if len(bad) > 0 {
					c.VP("assert:"+rule, f.Pos, f.St.Path(), "an action of the grammar rule %s asserts that a value is a %s, but it can be %s", rule, types.TypeString(f.Typ, nil), strings.Join(uniq(bad), " or "))
				}
			case "index":
				c.Obl("indices")
				n, ok := f.Idx.IsInt()
				if ok && n >= 0 && (g.atLeast(a, f.St, f.Base, 0) > int(n) || g.longer(f.St, f.Base, n)) {
					continue
				}
				in := false
				for _, n := range g.lengths(a, f.St, f.Base) {
					in = in || !ok && f.St.Decide(flow.Lt(f.Idx, n)) == 1
				}
				if in {
					continue
				}
				c.VP("index:"+rule, f.Pos, f.St.Path(), "an action of the grammar rule %s indexes %s at %s, which may be out of range", rule, f.Base, f.Idx)
			case "from", "to":
				c.Obl("slices")
				n, ok := f.Idx.IsInt()
				if ok && n >= 0 && (g.atLeast(a, f.St, f.Base, 0) >= int(n) || g.longer(f.St, f.Base, n-1)) {
					continue
				}
				if g.natural(f.Idx) && f.St.Decide(flow.Lt(flow.Len(f.Base), f.Idx)) == 0 {
					continue
				}
				in := false
				for _, n := range g.lengths(a, f.St, f.Base) {
					in = in || f.Idx == n
				}
				if in {
					continue
				}
				c.VP("slice:"+rule, f.Pos, f.St.Path(), "an action of the grammar rule %s slices %s at %s, which may be out of range", rule, f.Base, f.Idx)
			}
		}
	}
	c.Need("actions", 2)
	c.Need("assertions", 2)
}

// lengths lists terms which equal the length of a list.
func (g *gram) lengths(a *gaction, s *flow.State, t *flow.Term) []*flow.Term {
	out := []*flow.Term{flow.Len(t)}
	for i := 0; i < 4; i++ {
		t = unwrap(t)
		if t.Op == "make" && len(t.Args) > 0 {
			return append(out, t.Args[0])
		}
		ps, ok := pieces(a.X, t)
		if !ok || len(ps) != 1 || ps[0].Loop == nil || ps[0].Loop.Over == nil || ps[0].Loop.left(s) {
			break
		}
		for _, it := range ps[0].Loop.It {
			if it.Same || len(it.Parts) != 1 || it.Parts[0].One == nil {
				return out
			}
		}
		t = ps[0].Loop.Over
		out = append(out, flow.Len(t))
	}
	return out
}

func uniq(ss []string) []string {
	out := []string{}
	for i, s := range ss {
		if i == 0 || s != ss[i-1] {
			out = append(out, s)
		}
	}
	return out
}

// natural: never negative.
func (g *gram) natural(t *flow.Term) bool {
	if n, ok := t.IsInt(); ok {
		return n >= 0
	}
	return t.Op == "len"
}

// longer: the path implies len(base) > n.
func (g *gram) longer(s *flow.State, base *flow.Term, n int64) bool {
	if n < 0 || s.Decide(flow.Lt(flow.Int(n), flow.Len(base))) == 1 {
		return true
	}
	if n > 0 {
		return false
	}
	// being inside a loop over the list
	return s.Decide(flow.Eq(flow.Len(base), flow.Int(0))) == 0 || g.inLoop(s, base)
}

func (g *gram) inLoop(s *flow.State, base *flow.Term) bool {
	for f, v := range s.Facts {
		if !v {
			continue
		}
		if f.Op == "lt" && f.Args[1] == flow.Len(base) {
			i := f.Args[0]
			if n, ok := i.IsInt(); ok && n >= 0 || i.Op == "idx" || i.Op == "restidx" || s.Decide(flow.Lt(i, flow.Int(0))) == 0 {
				return true
			}
		}
	}
	return false
}

// has: values of that kind have the type.
func (g *gram) has(v gval, t types.Type) bool {
	switch v.Kind {
	case "type":
		if i, ok := t.Underlying().(*types.Interface); ok {
			return types.Implements(v.Typ, i)
		}
		return types.Identical(v.Typ, t)
	case "list", "seq":
		sl, ok := t.(*types.Slice)
		if ok {
			i, ok := sl.Elem().Underlying().(*types.Interface)
			return ok && i.Empty()
		}
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.Empty()
	case "bytes":
		if i, ok := t.Underlying().(*types.Interface); ok {
			return i.Empty()
		}
		return types.Identical(t, types.NewSlice(types.Typ[types.Byte]))
	}
	return false
}

// possible: the path does not exclude a value of that kind.
func (g *gram) possible(s *flow.State, t *flow.Term, v gval) bool {
	var typ types.Type
	switch v.Kind {
	case "type":
		typ = v.Typ
	case "bytes":
		typ = types.NewSlice(types.Typ[types.Byte])
	case "nil":
		return s.IsNil(t) != 0
	default:
		typ = types.NewSlice(types.NewInterfaceType(nil, nil))
	}
	return s.Decide(flow.TypeIs(t, typ)) != 0 && s.IsNil(t) != 1
}

// root checks the type of the whole document's value.
func (g *gram) root() {
	c := g.c
	node := c.P.iface(astPkg, "Node")
	if node == nil {
		c.V("anchor:Node", 0, "syntax nodes no longer exist")
		return
	}
	for _, v := range g.values(g.Order[0].Expr) {
		c.Obl("document values")
		if v.Kind != "type" || !types.Implements(v.Typ, node) {
			c.V("root", g.Order[0].Pos, "a document can parse to %s, which is not a syntax node", v)
		}
	}
	c.Need("document values", 1)
}
