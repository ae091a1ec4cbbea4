package main

import (
	"sort"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C16", Title: "Line endings do not change what a document means",
		Rule:  "The grammar is read from the tables the parser runs. Every matcher and lookahead reachable from the document rule must treat CR like LF: a class accepts both or neither, and the texts of every small sub-expression involving line breaks must be closed under replacing LF by CRLF and back, taking into account alternatives hidden by an earlier one. Where an action keeps matched text (the summary of its function uses it), that text must not be able to contain a CR.",
		Trust: []string{"the parser runtime in the generated file interprets the tables as documented"},
		Run:   runC16,
	})
}

func runC16(c *C) {
	g := newGram(c)
	g.actions()
	seen := map[*grule]bool{}
	g.endings(g.Order[0].Expr, seen)
	for _, a := range g.Acts {
		g.keptBreaks(a)
	}
	c.Need("line break matchers", 1)
	c.Need("character classes", 2)
	c.Need("actions", 2)
}

// endings checks an expression which is not part of a larger one with a small
// language.
func (g *gram) endings(e *gexpr, seen map[*grule]bool) {
	c := g.c
	if e.Kind == "ref" {
		r := g.Rules[e.Ref]
		if r == nil {
			return
		}
		if l := g.language(e); l != nil {
			g.closed(e, l, nil)
			return
		}
		if !seen[r] {
			seen[r] = true
			g.endings(r.Expr, seen)
		}
		return
	}
	if l := g.language(e); l != nil && (e.Kind != "class" || len(e.Chars) > 0) {
		g.closed(e, l, nil)
		return
	}
	switch e.Kind {
	case "class":
		c.Obl("character classes")
		if e.matches('\r') != e.matches('\n') {
			c.V("class:"+e.Rule.Name, e.Pos, "the grammar rule %s treats carriage returns differently from line feeds in a character class", e.Rule.Name)
		}
	case "lit":
		if strings.ContainsAny(e.Lit, "\r\n") {
			c.V("break:"+e.Rule.Name, e.Pos, "the grammar rule %s accepts %q but not with other line endings", e.Rule.Name, e.Lit)
		}
	case "star", "plus":
		if l := g.language(e.Kids[0]); l != nil {
			g.closed(e, l, l)
			return
		}
		g.endings(e.Kids[0], seen)
	case "seq":
		for i := 0; i < len(e.Kids); {
			// as many as have a small language together
			j, best := i, map[string]bool(nil)
			for k := i + 1; k <= len(e.Kids); k++ {
				l := g.product(e.Kids[i:k], map[*grule]bool{})
				if l == nil {
					break
				}
				j, best = k, l
			}
			if best != nil {
				g.closed(e.Kids[i], best, nil)
				i = j
				continue
			}
			g.endings(e.Kids[i], seen)
			i++
		}
	default:
		for _, k := range e.Kids {
			g.endings(k, seen)
		}
	}
}

// closed: with a text, those with other line endings are accepted too; rep if
// the texts may be repeated.
func (g *gram) closed(e *gexpr, l, rep map[string]bool) {
	c := g.c
	texts := []string{}
	for s := range l {
		if strings.ContainsAny(s, "\r\n") {
			texts = append(texts, s)
		}
	}
	if len(texts) == 0 {
		if e.Kind == "class" || rep != nil {
			c.Obl("character classes")
		}
		return
	}
	sort.Strings(texts)
	c.Obl("line break matchers")
	c.Sample("%s: %q", e.Rule.Name, texts)
	var split func(s string) bool
	split = func(s string) bool {
		if s == "" {
			return true
		}
		for p := range rep {
			if p != "" && strings.HasPrefix(s, p) && split(s[len(p):]) {
				return true
			}
		}
		return false
	}
	for _, s := range texts {
		lf := strings.ReplaceAll(s, "\r\n", "\n")
		for _, o := range []string{lf, strings.ReplaceAll(lf, "\n", "\r\n")} {
			if l[o] || rep != nil && split(o) {
				continue
			}
			c.V("break:"+e.Rule.Name, e.Pos, "the grammar rule %s accepts %q but not %q", e.Rule.Name, s, o)
			return
		}
	}
}

// keptBreaks: text an action keeps has no carriage return.
func (g *gram) keptBreaks(a *gaction) {
	c := g.c
	c.Obl("actions")
	rule := a.Expr.Rule.Name
	for _, ex := range a.Exits {
		if errPath(ex.St, ex.Res) {
			continue
		}
		r := g.full(a, ex.Res[0])
		for f := range ex.St.Facts {
			if f.Mentions(a.Text) && g.consumes(a.Expr.Kids[0], '\r') {
				c.VP("decides:"+rule, a.Expr.Pos, ex.St.Path(), "an action of the grammar rule %s depends on matched text which can contain line breaks", rule)
				break
			}
		}
		if uses(r, a.Text) {
			c.Obl("kept texts")
			if g.consumes(a.Expr.Kids[0], '\r') {
				c.VP("kept:"+rule, a.Expr.Pos, ex.St.Path(), "an action of the grammar rule %s keeps matched text which can contain a carriage return", rule)
			}
		}
		for _, l := range g.labels(a.Expr) {
			name := l.Label
			var term *flow.Term
			direct := false
			for _, t := range r {
				t.Walk(func(u *flow.Term) {
					if n, ok := labelOf(u); ok && n == name && u.Op == "lookup" {
						term = u
					}
				})
			}
			if n, ok := labelOf(ex.Res[0]); ok && n == name {
				direct = true
			}
			if term == nil || direct {
				continue
			}
			c.Obl("kept values")
			if g.bareBreak(l.Kids[0], map[*grule]bool{}) {
				c.VP("kept:"+rule, a.Expr.Pos, ex.St.Path(), "an action of the grammar rule %s keeps text of %q which can contain a carriage return", rule, name)
			}
		}
	}
}

// full lists the terms which make up a result, lists made by loops included.
func (g *gram) full(a *gaction, t *flow.Term) []*flow.Term {
	out := []*flow.Term{}
	seen := map[*flow.Term]bool{}
	var add func(t *flow.Term)
	add = func(t *flow.Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		t.Walk(func(u *flow.Term) {
			if (u.Op == "loopphi" || u.Op == "mphi" || u.Op == "make") && !seen[u] {
				if rec := a.X.Rec[u]; rec != nil {
					for i := range rec.Init {
						add(i)
					}
					for s := range rec.Steps {
						add(s)
					}
				}
				if ps, ok := pieces(a.X, u); ok {
					for _, p := range ps {
						if p.Loop != nil {
							for _, it := range p.Loop.It {
								for _, q := range it.Parts {
									if q.One != nil {
										add(q.One)
									}
								}
							}
						}
					}
				}
			}
		})
	}
	add(t)
	return out
}

func uses(ts []*flow.Term, x *flow.Term) bool {
	for _, t := range ts {
		if t.Mentions(x) {
			return true
		}
	}
	return false
}

// bareBreak: the value holds matched text with a carriage return outside of
// any action.
func (g *gram) bareBreak(e *gexpr, seen map[*grule]bool) bool {
	switch e.Kind {
	case "and", "not", "code", "action":
		return false
	case "lit":
		return strings.Contains(e.Lit, "\r")
	case "class", "any":
		return e.matches('\r')
	case "ref":
		r := g.Rules[e.Ref]
		if r == nil || seen[r] {
			return false
		}
		seen[r] = true
		return g.bareBreak(r.Expr, seen)
	}
	for _, k := range e.Kids {
		if g.bareBreak(k, seen) {
			return true
		}
	}
	return false
}
