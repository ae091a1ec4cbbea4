package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// profiling follows the options which ask for profiles.
type profiling struct {
	c          *C
	port, path *flow.Term
}

// call handles the operations which profile the command.
func (p *profiling) call(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	c := p.c
	bad := func(f string, a ...any) { c.VP("profile", ci.Pos, s.Path(), f, a...) }
	asked := func(o *flow.Term, what string) {
		if isSet(s, o) != 1 {
			bad("%s although the option may not be given", what)
		}
	}
	serves := func(name string) bool { return name == "net/http.Serve" || name == "(*net/http.Server).Serve" }
	switch {
	case ci.Name == "net.Listen":
		c.Obl("profiles")
		asked(p.port, "profiles are served")
		if !ci.Args[1].Mentions(p.port) {
			bad("profiles are served on %s instead of the port given", ci.Args[1])
		}
		return nil, false
	case ci.Go:
		listens := func(t *flow.Term) bool {
			return t.Has(func(u *flow.Term) bool { return strings.HasPrefix(flow.CallName(u), "net.Listen") })
		}
		for _, a := range append([]*flow.Term{ci.Func}, ci.Args...) {
			if a == nil {
				continue
			}
			if serves(ci.Name) && listens(a) || ci.Name == "net/http.ListenAndServe" && a.Mentions(p.port) {
				s.AddSticky("profile:http")
			}
			if f := flow.Closure(a); f != nil {
				for _, n := range callNames(f) {
					if serves(n) && closes(s, a, listens) || n == "net/http.ListenAndServe" && closes(s, a, func(t *flow.Term) bool { return t.Mentions(p.port) || p.cmd(t) != nil }) {
						s.AddSticky("profile:http")
					}
				}
			}
		}
	case (ci.Name == "os.Create" || ci.Name == "os.OpenFile") && ci.Args[0] == p.path:
		c.Obl("profiles")
		asked(p.path, "a profile is written")
	case ci.Name == "runtime/pprof.StartCPUProfile":
		c.Obl("profiles")
		asked(p.path, "a profile is taken")
		if !ci.Args[0].Has(func(u *flow.Term) bool {
			n := flow.CallName(u)
			return (strings.HasPrefix(n, "os.Create") || strings.HasPrefix(n, "os.OpenFile")) && len(u.Args) > 0 && u.Args[0] == p.path
		}) {
			bad("the profile is written to %s instead of the file asked for", ci.Args[0])
		}
		s.AddSticky("profile:cpu", unwrap(ci.Args[0]))
	case ci.Name == "runtime/pprof.StopCPUProfile":
		if s.Count("profile:cpu") > 0 {
			s.AddSticky("profile:stopped")
		}
	case ci.Name == "(*os.File).Close":
		for _, it := range s.Items("profile:cpu") {
			if unwrap(ci.Args[0]) == it.Terms[0] && s.Count("profile:stopped") == 0 {
				bad("the file of the profile is closed before the profile is complete")
			}
		}
	}
	return nil, false
}

func (p *profiling) cmd(t *flow.Term) *flow.Term {
	if t.Op == "param" && t.Str == "cmd" {
		return t
	}
	return nil
}

// exit checks a way out without failure.
func (p *profiling) exit(e exitRec) {
	s := e.St
	if isSet(s, p.port) != 0 && s.Count("profile:http") == 0 {
		p.c.VP("profile", e.Pos, s.Path(), "no profiles are served although a port may be given for them")
	}
	if isSet(s, p.path) != 0 && s.Count("profile:cpu") == 0 {
		p.c.VP("profile", e.Pos, s.Path(), "no profile is taken although a file may be given for it")
	}
}

// callNames lists what a function calls directly.
func callNames(f *ssa.Function) []string {
	out := []string{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil {
					out = append(out, flow.FuncName(g))
				}
			}
		}
	}
	return out
}

// closes reports whether a closure captures a value.
func closes(s *flow.State, cl *flow.Term, is func(*flow.Term) bool) bool {
	for _, a := range cl.Args {
		if is(a) {
			return true
		}
		if a.Op == "alloc" && is(s.Load(a, nil)) {
			return true
		}
		if a.Typ != nil {
			if pt, ok := a.Typ.Underlying().(*types.Pointer); ok && is(s.Load(a, pt.Elem())) {
				return true
			}
		}
	}
	return false
}
