package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C43", Title: "The plain text of content is the text of its parts",
		Rule:  "The String method of every content type is summarised: the text returned on each path is decomposed into constants, the texts of nested content, and loops (with their recurrences, builders and joined lists), where going over the lines of a text and trimming or indenting them stands for that text. It must consist of the text of exactly the parts its kind has, each once and in order: all items, rows and cells, subjects and definitions, the content of styled, auxiliary and linked content; of a reference its displayed content, else the title of its tag, else its name; nothing for targets and tables of contents; an image's path and a section's title are part of their placeholders.",
		Trust: []string{"package strings", "fmt prints content by its String method"},
		Run:   runC43,
	})
}

type textParts struct {
	c    *C
	self *flow.Term
	x    *flow.Exec
}

type noText struct{ why string }

// path names a value relative to the content.
func (p *textParts) path(t *flow.Term) string {
	t = unwrap(t)
	switch {
	case t == p.self:
		return "$"
	case t.Op == "conv":
		return p.path(t.Args[0])
	case t.Op == "deref" && unwrap(t.Args[0]) == p.self:
		return "$"
	case t.Op == "field":
		return p.path(t.Args[0]) + "." + t.Str
	case t.Op == "elem":
		return p.path(t.Args[0]) + "[]"
	}
	panic(noText{"has " + t.String()})
}

func (p *textParts) list(s *flow.State, ts []*flow.Term) []string {
	out := []string{}
	for _, t := range ts {
		out = append(out, p.flat(s, t)...)
	}
	return out
}

// text is the text of content; of a string it is the string.
func (p *textParts) text(s *flow.State, v *flow.Term) []string {
	v = unwrap(v)
	if v.Typ != nil && isStr(v.Typ) {
		return p.flat(s, v)
	}
	return []string{"text(" + p.path(v) + ")"}
}

// flat lists the parts a text consists of, loops in braces.
func (p *textParts) flat(s *flow.State, t *flow.Term) []string {
	if _, ok := t.IsStr(); ok {
		return nil
	}
	n := flow.CallName(t)
	switch {
	case t.Op == "strcat":
		return p.list(s, t.Args)
	case t.Op == "pure" && t.Str == "text":
		return p.text(s, t.Args[0])
	case n == "invoke:(error).Error":
		return nil
	case t.Op == "fmt":
		v := t.Args[0]
		if v.Op == "iface" && v.Typ != nil {
			if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return nil
			}
		}
		if b := unwrap(v); b.Typ != nil && isIntT(b.Typ) {
			return nil
		}
		v = unwrap(v)
		if v.Typ != nil && types.Identical(v.Typ.Underlying(), errI()) || v.Op == "result" {
			return nil
		}
		return p.text(s, v)
	case t.Op == "loopphi" || t.Op == "mphi":
		return p.loop(s, t)
	case n == "strings.TrimRight" || n == "strings.TrimSpace" || n == "strings.TrimSuffix" || n == "strings.Trim" || n == "strings.TrimLeft":
		if len(t.Args) > 1 {
			if v, ok := t.Args[1].IsStr(); !ok || strings.TrimSpace(v) != "" {
				panic(noText{"is cut by " + t.Args[1].String()})
			}
		}
		return p.flat(s, t.Args[0])
	case n == "strings.ReplaceAll" || n == "strings.Replace" && len(t.Args) == 4 && isInt(t.Args[3], -1):
		a, ok1 := t.Args[1].IsStr()
		b, ok2 := t.Args[2].IsStr()
		if !ok1 || !ok2 || strings.TrimSpace(a) != "" || !strings.Contains(b, a) {
			panic(noText{"is altered by replacing " + t.Args[1].String()})
		}
		return p.flat(s, t.Args[0])
	case n == "strings.Join":
		return p.elems(s, t.Args[0])
	case n == "fmt.Sprintln" || n == "fmt.Sprint":
		return p.elems(s, t.Args[0])
	case n == "strconv.Itoa" || n == "strconv.FormatInt":
		return nil
	case t.Op == "conv":
		return p.flat(s, t.Args[0])
	case t.Typ != nil && types.Implements(t.Typ, p.c.P.iface(mod, "Content")) && (t.Op == "field" || t.Op == "elem"):
		return p.text(s, t)
	case t.Typ != nil && isStr(t.Typ) && (t.Op == "field" || t.Op == "elem" || t.Op == "deref" || t == p.self):
		return []string{p.path(t)}
	}
	panic(noText{"has " + t.String()})
}

// elems: the texts of a list of texts.
func (p *textParts) elems(s *flow.State, l *flow.Term) []string {
	if n := flow.CallName(l); n == "strings.Split" || n == "strings.SplitAfter" {
		return p.flat(s, l.Args[0])
	}
	ps, ok := pieces(p.x, l)
	if !ok {
		panic(noText{"has " + l.String()})
	}
	return p.pieces(s, ps)
}

func (p *textParts) pieces(s *flow.State, ps []piece) []string {
	out := []string{}
	for _, q := range ps {
		switch {
		case q.One != nil:
			out = append(out, p.flat(s, q.One)...)
		case q.Spread != nil:
			panic(noText{"has " + q.Spread.String()})
		default:
			if q.Loop.left(s) || q.Loop.Over == nil {
				panic(noText{"is made by a loop which may end early"})
			}
			its := [][]string{}
			for _, it := range q.Loop.It {
				its = append(its, p.pieces(it.St, it.Parts))
			}
			out = append(out, p.iters(s, q.Loop.Over, its)...)
		}
	}
	return out
}

// iters: what each iteration over a list contributes.
func (p *textParts) iters(s *flow.State, over *flow.Term, its [][]string) []string {
	for _, it := range its {
		if strings.Join(it, " ") != strings.Join(its[0], " ") {
			panic(noText{"does not treat all parts alike"})
		}
	}
	if len(its) == 0 {
		panic(noText{"never has any part"})
	}
	for _, i := range its[0] {
		if i != "{" && i != "}" && !strings.Contains(i, p.path(over)+"[]") {
			panic(noText{"repeats " + i})
		}
	}
	return append(append([]string{"{"}, its[0]...), "}")
}

func (p *textParts) loop(s *flow.State, t *flow.Term) []string {
	rec, sum := p.x.Rec[t], p.x.LoopSums[p.x.SymLoop[t]]
	if rec == nil || sum == nil || len(rec.Init) != 1 {
		panic(noText{"has " + t.String()})
	}
	if s.Has("left:" + p.x.SymLoop[t]) {
		panic(noText{"is made by a loop which may end early"})
	}
	out := []string{}
	for i := range rec.Init {
		if i.Op == "field" && i.Str == "built" { // an empty builder
			continue
		}
		from, more := i, []*flow.Term(nil)
		if i.Op == "strcat" {
			from, more = i.Args[0], i.Args[1:]
		}
		if (from.Op == "loopphi" || from.Op == "mphi") && p.x.Rec[from] != nil && inLoop(p, from, t) {
			out = append(out, p.list(s, more)...) // continues what an outer loop builds
			continue
		}
		out = append(out, p.flat(s, i)...)
	}
	over, elem, _ := sumElem(p.x, sum)
	if over == nil {
		panic(noText{"is made by a loop which does not go over a list"})
	}
	if n := flow.CallName(over); n == "strings.Split" || n == "strings.SplitAfter" {
		for _, it := range sum.On(s) {
			p.line(it, t, elem)
		}
		return append(out, p.flat(s, over.Args[0])...)
	}
	its := [][]string{}
	for _, it := range sum.On(s) {
		step, ok := it.Steps[t]
		switch {
		case !ok || step == t:
			its = append(its, nil)
		case step.Op == "strcat" && step.Args[0] == t:
			its = append(its, p.list(it.St, step.Args[1:]))
		case step.Op == "strcat" && continues(p.x, step.Args[0], t):
			its = append(its, p.list(it.St, step.Args))
		case continues(p.x, step, t):
			its = append(its, p.flat(it.St, step))
		case it.St.Decide(flow.Eq(t, flow.StrConst(""))) == 1 || it.St.Decide(flow.Eq(flow.Len(t), flow.Int(0))) == 1:
			its = append(its, p.flat(it.St, step))
		default:
			panic(noText{"drops what it has for " + step.String()})
		}
	}
	return append(out, p.iters(s, over, its)...)
}

// continues: an inner loop goes on with what an outer one builds.
func continues(x *flow.Exec, in, t *flow.Term) bool {
	if r := x.Rec[in]; r != nil && (in.Op == "loopphi" || in.Op == "mphi") && len(r.Init) == 1 {
		for i := range r.Init {
			return i == t || i.Op == "strcat" && i.Args[0] == t
		}
	}
	return false
}

// inLoop: the loop symbol continues one of an enclosing loop.
func inLoop(p *textParts, init, t *flow.Term) bool {
	for s := range p.x.Rec[init].Steps {
		if s == t || s.Op == "strcat" && s.Args[0] == t {
			return true
		}
	}
	return false
}

// line: one line of a text is added, or nothing for an empty one.
func (p *textParts) line(it flow.Iter, t, line *flow.Term) {
	step, ok := it.Steps[t]
	if !ok {
		step = t
	}
	empty := func(u *flow.Term) bool {
		return it.St.Decide(flow.Eq(u, flow.StrConst(""))) == 1 || it.St.Decide(flow.Eq(flow.Len(u), flow.Int(0))) == 1
	}
	kept, added := empty(t), 0
	parts := []*flow.Term{step}
	if step.Op == "strcat" {
		parts = step.Args
	}
	for i, q := range parts {
		switch _, isConst := q.IsStr(); {
		case q == t && i == 0:
			kept = true
		case q == line:
			added++
		case !isConst:
			panic(noText{"has " + q.String() + " for a line"})
		}
	}
	if !kept || added > 1 || added == 0 && !empty(line) {
		panic(noText{"loses or repeats lines"})
	}
}

func runC43(c *C) {
	con := c.P.iface(mod, "Content")
	conN := c.P.named(mod, "Content")
	want := map[string]string{
		"String": "$", "Sequence": "{ text($[]) }", "Paragraph": "{ text($[]) }", "Preformatted": "{ text($[]) }",
		"List": "{ text($.Items[]) }", "Table": "{ { text($.Rows[][]) } }", "Definitions": "{ text($[].Subject) text($[].Definition) }",
		"Styled": "text($.Content)", "Aux": "text($.Content)", "Link": "text($.Content)",
		"Target": "", "TableOfContents": "", "Image": "$.Path",
	}
	resolve := c.meth(mod, "Reference", "Tag")
	for _, t := range c.P.contentTypes() {
		fn := c.methodOf(t, "String")
		name := typeName(t)
		if fn == nil {
			continue
		}
		args := c.params(fn)
		p := &textParts{c: c, self: args[0]}
		tag := (*flow.Term)(nil)
		r := &flow.Rule{Keep: func(t *flow.Term) bool { return loopSyms(t) || t.Op == "result" }}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if o, ok := c.builder(x, s, ci); ok {
				return o, ok
			}
			if strings.HasSuffix(ci.Name, ").String") && len(ci.Args) == 1 && (ci.Method != nil || ci.Callee != nil && ci.Callee != fn && types.Implements(ci.Args[0].Typ, con)) {
				if ci.Method == nil && unwrap(ci.Args[0]) == args[0] {
					return nil, false
				}
				return one(s, flow.Sym("pure", "text", types.Typ[types.String], unwrap(ci.Args[0]))), true
			}
			if ci.Callee == resolve {
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					tag = flow.Sym("result", "0", resolve.Signature.Results().At(0).Type(), o.Res)
				}
				return outs, true
			}
			return nil, false
		}
		x, exits := c.run(r, fn, args, nil)
		p.x = x
		for _, e := range exits {
			c.Obl("texts")
			s := e.St
			got, why := "", ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						n, ok := r.(noText)
						if !ok {
							panic(r)
						}
						why = n.why
					}
				}()
				if name == "Reference" && tag != nil && e.Res[0].Op == "pure" && e.Res[0].Str == "text" {
					if title := get(s, tag, "Title", conN); unwrap(e.Res[0].Args[0]) == unwrap(title) {
						got = "title"
						return
					}
				}
				got = strings.Join(p.flat(s, e.Res[0]), " ")
				if v, ok := e.Res[0].IsStr(); ok && v == "" {
					for f, v := range s.Facts { // the text is known to be empty
						if v && f.Op == "eq" && f.Args[1] == flow.StrConst("") && f.Args[0].Has(func(t *flow.Term) bool { return t == args[0] || loopSyms(t) }) {
							got = strings.Join(p.flat(s, f.Args[0]), " ")
						}
					}
				}
			}()
			bad := func(f string, a ...any) {
				c.VP("text:"+name, fn.Pos(), s.Path(), "the text of a %s "+f, append([]any{name}, a...)...)
			}
			if why != "" {
				bad("%s", why)
				continue
			}
			w, ok := want[name]
			switch {
			case name == "Reference":
				given := get(s, args[0], "Content", conN)
				failed := tag != nil && s.IsNil(flow.Sym("result", "1", types.Universe.Lookup("error").Type(), tag.Args[0])) == 0
				switch {
				case s.IsNil(given) == 0:
					w = "text($.Content)"
				case s.IsNil(given) != 1:
					w = "displayed content, if there is any"
				case tag == nil:
					w = "title or name of its tag"
				case failed || s.IsNil(tag) == 1:
					w = "$.TagName"
				case s.IsNil(tag) == 0:
					w = "title"
				default:
					w = "title, if there is a tag"
				}
			case name == "Section":
				if !strings.Contains(got, "text($.Title)") {
					bad("lacks its title")
				}
				continue
			case !ok:
				continue
			}
			if got != w {
				bad("consists of %q instead of %q", got, w)
			}
		}
		if len(exits) == 0 {
			c.V("text:"+name, fn.Pos(), "the text of a %s cannot be decided", name)
		}
	}
	c.Need("texts", 14)
}
