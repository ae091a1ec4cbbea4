package main

import (
	"go/types"
	"strings"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C45", Title: "The functions templates may use do what is documented",
		Rule:  "Every function put into a template function map of the render package is found by its name, and its body summarised symbolically. rawHTML and rawURL must yield the text of the content they are given and nothing else, as a type templates do not escape; walkContext must yield its first argument as Current and its second as Section; joinLines, unrolled over texts of one to five lines, must yield the lines unchanged and in order with the prefix before each but the first; stripAux must yield what StripAux makes of its argument. Each documented function must be there.",
		Trust: []string{"html/template shows template.HTML as it is", "url, render and headerDepth are decided by C06, C27 and C32"},
		Run:   runC45,
	})
}

func runC45(c *C) {
	strT := types.Typ[types.String]
	strip := c.fnc(mod, "StripAux")
	entries := c.templateFuncs(renderPkg)
	there := map[string]bool{}
	for _, fe := range entries {
		there[fe.Name] = true
		fn := c.behind(fe.Fn)
		if fn == strip {
			if fe.Name == "stripAux" {
				c.Obl("functions")
			} else {
				c.V("name:"+fe.Name, fe.Pos, "%s is StripAux", fe.Name)
			}
			continue
		}
		args := c.params(fn)
		each := func(r *flow.Rule, f func(e exitRec, bad func(f string, a ...any))) {
			c.Obl("functions")
			_, exits := c.run(r, fn, args, nil)
			if len(exits) == 0 {
				c.V("never:"+fe.Name, fe.Pos, "%s never succeeds", fe.Name)
			}
			for _, e := range exits {
				f(e, func(f string, a ...any) { c.VP("yields:"+fe.Name, e.Pos, e.St.Path(), fe.Name+" "+f, a...) })
			}
		}
		opaque := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch {
			case ci.Method != nil && ci.Method.Name() == "String" && len(ci.Args) == 1:
				return one(s, flow.Sym("pure", "text", strT, ci.Args[0])), true
			case ci.Callee == strip:
				return one(s, flow.Sym("pure", "stripped", ci.Result, ci.Args[0])), true
			case ci.Name == "fmt.Sprint" || ci.Name == "fmt.Sprintf":
				if t := flow.Sprintf(ci.Args); ci.Name == "fmt.Sprintf" && t != nil && t != flow.StrConst("") {
					return one(s, t), true
				}
			}
			return c.builder(x, s, ci)
		}
		switch fe.Name {
		case "rawHTML", "rawURL":
			if len(args) != 1 {
				c.V("yields:"+fe.Name, fe.Pos, "%s takes %d arguments", fe.Name, len(args))
				continue
			}
			want := flow.Sym("pure", "text", strT, args[0])
			raw := map[string]string{"rawHTML": "html/template.HTML", "rawURL": "html/template.URL"}[fe.Name]
			each(&flow.Rule{Call: opaque}, func(e exitRec, bad func(f string, a ...any)) {
				if len(e.Res) > 1 && errPath(e.St, e.Res) {
					bad("can fail")
					return
				}
				got := e.Res[0]
				if rt := fn.Signature.Results().At(0).Type(); rt.String() != raw {
					bad("yields a %s, which is escaped", rt)
				}
				for got.Op == "conv" || got.Op == "iface" {
					got = got.Args[0]
				}
				if got != want && e.St.Decide(flow.Eq(got, want)) != 1 {
					bad("yields %s instead of the text of the content", got)
				}
			})
		case "walkContext":
			if len(args) != 2 {
				c.V("yields:"+fe.Name, fe.Pos, "%s takes %d arguments", fe.Name, len(args))
				continue
			}
			each(&flow.Rule{}, func(e exitRec, bad func(f string, a ...any)) {
				v := e.Res[0]
				for i, f := range []string{"Current", "Section"} {
					if got := get(e.St, v, f, args[i].Typ); got != args[i] {
						bad("has %s as %s instead of its argument", got, f)
					}
				}
				t := fn.Signature.Results().At(0).Type()
				if fieldTypeOf(t, "Current") == nil || fieldTypeOf(t, "Section") == nil {
					bad("has no fields Current and Section")
				}
			})
		case "joinLines":
			if len(args) != 2 {
				c.V("yields:"+fe.Name, fe.Pos, "%s takes %d arguments", fe.Name, len(args))
				continue
			}
			for n := 1; n <= 5; n++ {
				lines, want := []*flow.Term{}, []*flow.Term{}
				for i := 0; i < n; i++ {
					l := flow.Sym("param", "line"+itoa(i), strT)
					lines = append(lines, flow.One(l))
					if i > 0 {
						want = append(want, flow.StrConst("\n"), args[0])
					}
					want = append(want, l)
				}
				all := flow.Cat(types.NewSlice(strT), lines...)
				r := &flow.Rule{Unroll: 20, Call: func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
					sep := func(i int) bool { t, ok := ci.Args[i].IsStr(); return ok && t == "\n" }
					switch ci.Name {
					case "strings.Split", "strings.SplitN":
						if ci.Args[0] == args[1] && sep(1) && (len(ci.Args) == 2 || isNeg(ci.Args[2])) {
							return one(s, all), true
						}
					case "strings.ReplaceAll", "strings.Replace":
						if ci.Args[0] == args[1] && sep(1) && (len(ci.Args) == 3 || isNeg(ci.Args[3])) {
							out := []*flow.Term{}
							for i, l := range lines {
								if i > 0 {
									out = append(out, ci.Args[2])
								}
								out = append(out, l.Args[0])
							}
							return one(s, flow.StrCat(out...)), true
						}
					case "strings.Join":
						if items, ok := listItems(s, ci.Args[0], strT); ok {
							out := []*flow.Term{}
							for i, l := range items {
								if i > 0 {
									out = append(out, ci.Args[1])
								}
								out = append(out, l)
							}
							return one(s, flow.StrCat(out...)), true
						}
					}
					return opaque(x, s, ci)
				}}
				each(r, func(e exitRec, bad func(f string, a ...any)) {
					if got, w := e.Res[0], flow.StrCat(want...); got != w && !(n == 1 && got == args[1]) {
						bad("makes %s of %d lines instead of %s", got, n, w)
					}
				})
			}
		case "stripAux":
			each(&flow.Rule{Call: opaque}, func(e exitRec, bad func(f string, a ...any)) {
				if got := unwrap(e.Res[0]); got.Op != "pure" || got.Str != "stripped" || unwrap(got.Args[0]) != args[0] {
					bad("yields %s", got)
				}
			})
		}
	}
	for _, n := range strings.Fields("url stripAux rawHTML rawURL render walkContext headerDepth joinLines htmlURL") {
		if !there[n] {
			c.V("missing:"+n, 0, "templates can no longer use %s", n)
		}
	}
	c.Need("functions", 6)
}
