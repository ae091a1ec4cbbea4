package main

import (
	"go/constant"
	"regexp/syntax"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// rewrite is one step of deriving a name from a title, as a rewriting of
// single characters or of a fixed text.
type rewrite struct {
	lower    bool
	old, new string          // a fixed text
	class    func(rune) bool // characters replaced by new
	run      bool            // runs of them at once
	trim     bool            // only at the ends
}

func (r rewrite) apply(t string) string {
	switch {
	case r.lower:
		return strings.ToLower(t)
	case r.trim:
		return strings.TrimFunc(t, r.class)
	case r.class == nil:
		return strings.ReplaceAll(t, r.old, r.new)
	}
	out, in := "", false
	for _, c := range t {
		if !r.class(c) {
			out, in = out+string(c), false
			continue
		}
		if !in || !r.run {
			out += r.new
		}
		in = true
	}
	return out
}

// patternOf is the constant pattern a regular expression was made from.
func (c *C) patternOf(t *flow.Term) (string, bool) {
	for t.Op == "deref" || t.Op == "conv" {
		t = t.Args[0]
	}
	if n := flow.CallName(t); n == "regexp.MustCompile" && len(t.Args) == 1 {
		return t.Args[0].IsStr()
	}
	call, ok := c.initial(t).(*ssa.Call)
	if !ok || calleeName(call) != "regexp.MustCompile" {
		return "", false
	}
	k, ok := call.Call.Args[0].(*ssa.Const)
	if !ok {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// initial is the value which a package's variable is set to once and for all.
func (c *C) initial(t *flow.Term) ssa.Value {
	if t.Op != "global" {
		return nil
	}
	for _, pk := range c.P.scope() {
		sp := c.P.SSA.Package(pk.Types)
		if sp == nil || sp.Func("init") == nil {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Pkg.Pkg.Path()+"."+g.Name() != t.Str {
				continue
			}
			var val ssa.Value
			stores := 0
			for _, f := range c.P.allFuncs(pk.PkgPath) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok && st.Addr == g {
							stores++
							val = st.Val
						}
					}
				}
			}
			if stores != 1 {
				return nil
			}
			return val
		}
	}
	return nil
}

// classOf is the character class a pattern matches one of, or runs of.
func classOf(pattern string) (class func(rune) bool, run, ok bool) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return nil, false, false
	}
	if re.Op == syntax.OpPlus && re.Flags&syntax.NonGreedy == 0 {
		run, re = true, re.Sub[0]
	}
	switch {
	case re.Op == syntax.OpCharClass:
	case re.Op == syntax.OpLiteral && len(re.Rune) == 1 && re.Flags&syntax.FoldCase == 0:
		k := re.Rune[0]
		return func(r rune) bool { return r == k }, run, true
	default:
		return nil, false, false
	}
	return func(r rune) bool {
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= r && r <= re.Rune[i+1] {
				return true
			}
		}
		return false
	}, run, true
}

// rewrites takes a derived text apart into the steps from its origin.
func (c *C) rewrites(t, origin *flow.Term) ([]rewrite, bool) {
	t = unwrap(t)
	if t == origin {
		return nil, true
	}
	if t.Op == "conv" {
		return c.rewrites(t.Args[0], origin)
	}
	var src *flow.Term
	var step rewrite
	switch n := flow.CallName(t); n {
	case "strings.ToLower":
		src, step = t.Args[0], rewrite{lower: true}
	case "strings.TrimSpace":
		src, step = t.Args[0], rewrite{trim: true, class: unicode.IsSpace}
	case "strings.ReplaceAll", "strings.Replace":
		o, ok1 := t.Args[1].IsStr()
		w, ok2 := t.Args[2].IsStr()
		if !ok1 || !ok2 || o == "" || len(t.Args) > 3 && !isNeg(t.Args[3]) {
			return nil, false
		}
		src, step = t.Args[0], rewrite{old: o, new: w}
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		p, ok := c.patternOf(t.Args[0])
		if !ok {
			return nil, false
		}
		w, ok := t.Args[2].IsStr()
		if !ok || strings.Contains(w, "$") {
			return nil, false
		}
		class, run, ok := classOf(p)
		if !ok {
			return nil, false
		}
		src, step = t.Args[1], rewrite{new: w, class: class, run: run}
	default:
		return nil, false
	}
	steps, ok := c.rewrites(src, origin)
	return append(steps, step), ok
}

// sanitizes decides what the rewriting of a title does to each character, each
// run of spaces and an ampersand between spaces. Each step acts on characters
// on their own, on runs of a class, or on a fixed text, so this determines what
// it does to every title.
func sanitizes(steps []rewrite) string {
	all := func(t string) string {
		for _, s := range steps {
			t = s.apply(t)
		}
		return t
	}
	want := func(r rune) string {
		switch {
		case unicode.IsSpace(r):
			return "-"
		case r == '_' || r == '-' || unicode.IsDigit(r) || unicode.IsLower(r):
			return string(r)
		case unicode.IsUpper(r):
			return string(unicode.ToLower(r))
		}
		return ""
	}
	chars := []rune{'\t', '\n', '\v', '\f', '\r'}
	for r := rune(' '); r < 0x7f; r++ {
		chars = append(chars, r)
	}
	show := func(t string) string { return flow.StrConst(t).String() }
	space := func(r rune) bool { return r != '\v' && unicode.IsSpace(r) }
	for _, a := range chars {
		if a == '\v' {
			continue
		}
		for _, b := range chars {
			if b == '\v' {
				continue
			}
			in := "x" + string(a) + string(b) + "x"
			out := "x" + want(a) + want(b) + "x"
			if space(a) && space(b) {
				out = "x-x"
			}
			if got := all(in); got != out {
				return "makes " + show(got) + " of " + show(in) + " instead of " + show(out)
			}
		}
	}
	if got := all("a & b"); got != "a-and-b" {
		return "makes " + show(got) + " of " + show("a & b")
	}
	return ""
}
