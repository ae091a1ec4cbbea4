package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C09", Title: "The command fails visibly, and only when something failed",
		Rule:  "Typestate analysis of Main (option parsing and Execute cut, each of which may succeed or fail) and of Execute (its helpers inlined; files, processes, loading, rendering and serving cut likewise). Every way out of Main with status zero has no error pending other than a request for help; every way out with another status has one, which was printed: by its detailed form where errors.As finds it, by itself otherwise. The version callback ends with status zero. In Execute, a process is run with the command's own arguments exactly on the paths where plugins are requested and the marker variable is known to be absent from the environment; it runs at most once, with the environment extended by a non-empty marker of that very name and with the command's output streams; its exit code is what the process then exits with, any other failure is returned, and no document is loaded, built or served there. On all other paths one is, and no process is run. The text of the program built is written out for one and for two plugins and parsed as Go: it must be a command which imports each plugin once for its effect and runs booklitcmd.Main once; where the build leaves it must be what is run.",
		Trust: []string{"go-flags prints parse errors when PrintErrors is set", "os/exec reports exit codes by *exec.ExitError"},
		Run:   runC09,
	})
}

// stdStream finds os.Stdout or os.Stderr in a value.
func stdStream(t *flow.Term) bool {
	return t != nil && t.Has(func(u *flow.Term) bool {
		return (u.Op == "global" || u.Op == "gaddr" || u.Op == "deref") && (u.Str == "os.Stdout" || u.Str == "os.Stderr")
	})
}

// asTarget models errors.As and errors.AsType: it forks on whether the error is of
// the target's type and stores it.
func asTarget(x *flow.Exec, s *flow.State, ci *flow.CallInfo) (t types.Type, outs []flow.Outcome) {
	if ci.Name == "errors.As" && len(ci.Args) == 2 {
		dst := unwrap(ci.Args[1])
		p, ok := dst.Typ, false
		if dst.Op == "alloc" {
			ok = true
		} else if pt, isP := p.Underlying().(*types.Pointer); isP {
			p, ok = pt.Elem(), true
		}
		if !ok || p == nil {
			return nil, nil
		}
		is := flow.Sym("as", flow.TypeKey(p), types.Typ[types.Bool], ci.Args[0])
		no := s.Clone()
		if s.Assume(is, true) {
			v := flow.Sym("asval", flow.TypeKey(p), p, ci.Args[0])
			s.Assume(flow.Eq(v, flow.Nil()), false)
			s.StoreTo(dst, v)
			outs = append(outs, flow.Outcome{St: s, Res: flow.Bool(true)})
		}
		if no.Assume(is, false) {
			outs = append(outs, flow.Outcome{St: no, Res: flow.Bool(false)})
		}
		return p, outs
	}
	if strings.HasPrefix(ci.Name, "errors.AsType") && len(ci.Args) == 1 && ci.Callee != nil && ci.Callee.Signature.Results().Len() == 2 {
		p := ci.Callee.Signature.Results().At(0).Type()
		is := flow.Sym("as", flow.TypeKey(p), types.Typ[types.Bool], ci.Args[0])
		no := s.Clone()
		if s.Assume(is, true) {
			v := flow.Sym("asval", flow.TypeKey(p), p, ci.Args[0])
			s.Assume(flow.Eq(v, flow.Nil()), false)
			outs = append(outs, flow.Outcome{St: s, Res: flow.Sym("tuple", "", nil, v, flow.Bool(true))})
		}
		if no.Assume(is, false) {
			outs = append(outs, flow.Outcome{St: no, Res: flow.Sym("tuple", "", nil, flow.ZeroOf(p), flow.Bool(false))})
		}
		return p, outs
	}
	return nil, nil
}

func runC09(c *C) {
	cmdT, opts := commandType(c)
	exe := c.meth(cmdPkg, cmdT.Obj().Name(), "Execute")
	c.mainExits(cmdT, exe)
	c.nestedRun(cmdT, opts, exe)
}

func (c *C) mainExits(cmdT *types.Named, exe *ssa.Function) {
	pretty := c.P.iface(mod, "PrettyError")
	prettyN := c.P.named(mod, "PrettyError")
	if pretty == nil || prettyN == nil {
		c.V("anchor:PrettyError", token.NoPos, "there is no detailed form of errors")
		return
	}
	main := c.fnc(cmdPkg, "Main")
	// the flags package in use
	var help, printErrors int64 = -1, -1
	var flagsErr types.Type
	for _, imp := range main.Pkg.Pkg.Imports() {
		if k, ok := imp.Scope().Lookup("ErrHelp").(*types.Const); ok {
			help, _ = constant.Int64Val(k.Val())
			if t := imp.Scope().Lookup("Error"); t != nil {
				flagsErr = types.NewPointer(t.Type())
			}
			if k, ok := imp.Scope().Lookup("PrintErrors").(*types.Const); ok {
				printErrors, _ = constant.Int64Val(k.Val())
			}
		}
	}
	versionField := ""
	for i := 0; i < structOf(cmdT).NumFields(); i++ {
		if reflect.StructTag(structOf(cmdT).Tag(i)).Get("long") == "version" {
			versionField = structOf(cmdT).Field(i).Name()
		}
	}
	// helpAsked decides whether a parse error is a request for help
	helpAsked := func(s *flow.State, e *flow.Term) int {
		asErr := flow.Sym("as", flow.TypeKey(flagsErr), types.Typ[types.Bool], e)
		if isTypeTest(s, e, flagsErr) == 0 || s.Decide(asErr) == 0 {
			return 0
		}
		res := -1
		for t, v := range s.Facts {
			if t.Op == "eq" && len(t.Args) == 2 {
				for i := range t.Args {
					n, ok := t.Args[i].IsInt()
					o := t.Args[1-i]
					if !ok || !o.Mentions(e) || !o.Has(func(u *flow.Term) bool { return u.Op == "field" && u.Str == "Type" }) {
						continue
					}
					if n == help {
						return map[bool]int{true: 1, false: 0}[v]
					}
					if v {
						res = 0
					}
				}
			}
			if t.Op == "wrotehelp" && t.Mentions(e) {
				return map[bool]int{true: 1, false: 0}[v]
			}
		}
		return res
	}
	var r *flow.Rule
	ended := func(s *flow.State, pos token.Pos, code *flow.Term) {
		c.Obl("ways out of the command")
		zero := s.Decide(flow.Eq(code, flow.Int(0)))
		for _, it := range s.Items("parse") {
			e := it.Terms[0]
			switch h := helpAsked(s, e); {
			case h == 1 && zero != 1:
				c.VP("help", pos, s.Path(), "asking for help ends with status %s", code)
			case h != 1 && zero != 0:
				c.VP("badoptions", pos, s.Path(), "options which cannot be parsed end with status %s", code)
			case h != 1 && !s.Has("printed", e) && !s.Has("printing"):
				c.VP("unprinted", pos, s.Path(), "an error in the options is not printed")
			case h == -1:
				c.VP("help", pos, s.Path(), "asking for help may end with status %s", code)
			}
			return
		}
		for _, it := range s.Items("failed") {
			e := it.Terms[0]
			if zero != 0 {
				c.VP("hidden", pos, s.Path(), "a failure ends with status %s", code)
			}
			isPretty := s.Decide(flow.Sym("as", flow.TypeKey(prettyN), types.Typ[types.Bool], e))
			switch {
			case isPretty != 0 && !s.Has("pretty", e):
				c.VP("plain", pos, s.Path(), "an error which may have a detailed form, by itself or by wrapping one which has, is not printed in it")
			case isPretty == 0 && !s.Has("printed", e):
				c.VP("unprinted", pos, s.Path(), "an error is not printed")
			}
			return
		}
		if zero != 1 {
			c.VP("fails", pos, s.Path(), "the command ends with status %s although nothing failed", code)
		}
	}
	r = &flow.Rule{}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if t, outs := asTarget(x, s, ci); t != nil {
			return outs, true
		}
		switch {
		case strings.HasSuffix(ci.Name, "flags.WroteHelp"):
			t := flow.Sym("wrotehelp", "", types.Typ[types.Bool], ci.Args[0])
			if s.IsNil(ci.Args[0]) == 1 {
				t = flow.Bool(false)
			}
			no := s.Clone()
			outs := []flow.Outcome{}
			if s.Assume(t, true) && s.Assume(flow.Eq(ci.Args[0], flow.Nil()), false) {
				outs = append(outs, flow.Outcome{St: s, Res: flow.Bool(true)})
			}
			if no.Assume(t, false) {
				outs = append(outs, flow.Outcome{St: no, Res: flow.Bool(false)})
			}
			return outs, true
		case ci.Name == "os.Exit":
			ended(s, ci.Pos, ci.Args[0])
			return nil, true
		case strings.HasSuffix(ci.Name, "flags.NewParser") || strings.HasSuffix(ci.Name, "flags.NewNamedParser"):
			res := x.OpaqueResult(s, ci)
			s.AddSticky("parser", res, unwrap(ci.Args[0]))
			if n, ok := ci.Args[len(ci.Args)-1].IsInt(); ok && n&printErrors != 0 {
				s.AddSticky("printing")
			}
			return one(s, res), true
		case strings.Contains(ci.Name, "go-flags") && (strings.HasSuffix(ci.Name, ".Parse") || strings.HasSuffix(ci.Name, ".ParseArgs")):
			c.Obl("parsings")
			for _, it := range s.Items("parser") {
				s.AddSticky("parsed", it.Terms[1])
				if versionField != "" {
					v := get(s, it.Terms[1], versionField, fieldTypeOf(cmdT, versionField))
					if v.Op != "func" && v.Op != "closure" {
						c.VP("version", ci.Pos, s.Path(), "nothing is done for --version: its callback is %s", v)
					} else {
						s.AddSticky("version", v)
					}
				}
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				if e := flow.Sym("result", "1", ci.Callee.Signature.Results().At(1).Type(), o.Res); o.St.IsNil(e) != 1 {
					o.St.AddSticky("parse", e)
				}
			}
			return outs, true
		case ci.Callee == exe:
			c.Obl("executions")
			if !s.Has("parsed", ci.Args[0]) {
				c.VP("command", ci.Pos, s.Path(), "the command executed, %s, is not the one the options were parsed into", ci.Args[0])
			}
			outs := forkErr(x, s, ci)
			for _, o := range outs {
				if o.St.IsNil(o.Res) != 1 {
					o.St.AddSticky("failed", o.Res)
				}
				o.St.AddSticky("executed")
			}
			return outs, true
		case strings.HasSuffix(ci.Name, ".PrettyPrint"):
			for _, it := range append(s.Items("failed"), s.Items("parse")...) {
				if unwrap(ci.Args[0]).Mentions(it.Terms[0]) && stdStream(ci.Args[1]) {
					s.AddSticky("pretty", it.Terms[0])
					s.AddSticky("printed", it.Terms[0])
				}
			}
			return one(s, flow.Nil()), true
		case strings.HasPrefix(ci.Name, "fmt.Fprint") || strings.HasPrefix(ci.Name, "fmt.Print") || strings.HasPrefix(ci.Name, "log.") || strings.Contains(ci.Name, "logrus.") || strings.HasPrefix(ci.Name, "io.WriteString") || strings.HasPrefix(ci.Name, "(*os.File).Write"):
			to := !strings.HasPrefix(ci.Name, "fmt.Fprint") && !strings.HasPrefix(ci.Name, "io.") && !strings.HasPrefix(ci.Name, "(*os") || stdStream(ci.Args[0])
			for _, it := range append(s.Items("failed"), s.Items("parse")...) {
				for _, a := range ci.Args {
					if to && a.Mentions(it.Terms[0]) {
						s.AddSticky("printed", it.Terms[0])
					}
				}
			}
			if strings.HasSuffix(ci.Name, ".Fatal") || strings.HasSuffix(ci.Name, ".Fatalf") || strings.HasSuffix(ci.Name, ".Fatalln") {
				ended(s, ci.Pos, flow.Int(1))
				return nil, true
			}
			if ci.Callee != nil && ci.Callee.Signature.Results().Len() > 0 {
				return one(s, x.OpaqueResult(s, ci)), true
			}
			return one(s, flow.Nil()), true
		}
		return nil, false
	}
	_, exits := c.run(r, main, nil, nil)
	versions := map[*flow.Term]bool{}
	for _, e := range exits {
		ended(e.St, e.Pos, flow.Int(0))
		for _, it := range e.St.Items("version") {
			versions[it.Terms[0]] = true
		}
		if e.St.Count("executed") == 0 && e.St.Count("parse") == 0 {
			c.VP("idle", e.Pos, e.St.Path(), "the command is not executed")
		}
	}
	// the version callback
	for v := range versions {
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			switch {
			case strings.HasPrefix(ci.Name, "fmt.Print") || strings.HasPrefix(ci.Name, "fmt.Fprint"):
				for _, a := range ci.Args {
					if a.Has(func(u *flow.Term) bool { return u.Op == "global" && u.Str == mod+".Version" }) {
						s.AddSticky("told")
					}
				}
			case ci.Name == "os.Exit":
				c.Obl("versions")
				if !isInt(ci.Args[0], 0) {
					c.VP("version", ci.Pos, s.Path(), "asking for the version ends with status %s", ci.Args[0])
				}
				if s.Count("told") == 0 {
					c.VP("version", ci.Pos, s.Path(), "asking for the version does not print it")
				}
				return nil, true
			}
			return nil, false
		}
		var f *ssa.Function
		if v.Op == "func" {
			f = flow.FuncByName(main.Prog, v.Str)
		} else {
			f = flow.Closure(v)
		}
		if f == nil || len(f.FreeVars) > 0 {
			continue
		}
		_, exits := c.run(r, f, nil, nil)
		for _, e := range exits {
			c.VP("version", e.Pos, e.St.Path(), "asking for the version does not end the command")
		}
	}
	c.Need("ways out of the command", 3)
	c.Need("parsings", 1)
	c.Need("executions", 1)
}

func (c *C) nestedRun(cmdT *types.Named, opts map[string]option, exe *ssa.Function) {
	cmd := flow.Sym("param", "cmd", types.NewPointer(cmdT))
	strT, boolT := types.Typ[types.String], types.Typ[types.Bool]
	var plugins *flow.Term
	exitT := types.Type(nil)
	for _, imp := range exe.Pkg.Pkg.Imports() {
		if imp.Path() == "os/exec" {
			exitT = types.NewPointer(imp.Scope().Lookup("ExitError").Type())
		}
	}
	if exitT == nil {
		c.V("anchor:exec", exe.Pos(), "no process is ever run")
		return
	}
	isArgs := func(t *flow.Term) bool { // os.Args[1:]
		t = unwrap(t)
		for t.Op == "cat" && len(t.Args) == 1 && t.Args[0].Op == "spread" {
			t = t.Args[0].Args[0]
		}
		return t.Op == "slice" && strings.HasSuffix(t.Args[0].Str, "os.Args") && isInt(t.Args[1], 1) && (len(t.Args) < 3 || t.Args[2].IsNil() || t.Args[2] == flow.Len(t.Args[0]))
	}
	// marker is the environment variable known to be absent
	markers := func(s *flow.State) []string {
		out := []string{}
		for _, it := range s.Items("asked") {
			k, _ := it.Terms[0].IsStr()
			if s.Decide(flow.Eq(flow.Sym("env", k, strT), flow.StrConst(""))) == 1 || s.Decide(flow.Sym("envset", k, boolT)) == 0 {
				out = append(out, k)
			}
		}
		return out
	}
	present := func(s *flow.State) bool {
		for _, it := range s.Items("asked") {
			k, _ := it.Terms[0].IsStr()
			if s.Decide(flow.Eq(flow.Sym("env", k, strT), flow.StrConst(""))) == 0 || s.Decide(flow.Sym("envset", k, boolT)) == 1 {
				return true
			}
		}
		return false
	}
	last := func(f *ssa.Function) types.Type {
		if f == nil || f.Signature.Results().Len() == 0 {
			return nil
		}
		return f.Signature.Results().At(f.Signature.Results().Len() - 1).Type()
	}
	fork := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo, kind string) []flow.Outcome {
		outs := forkErr(x, s, ci)
		for _, o := range outs {
			e := o.Res
			if n := ci.Callee.Signature.Results().Len(); n > 1 {
				e = flow.Sym("result", itoa(n-1), last(ci.Callee), o.Res)
			}
			if o.St.IsNil(e) != 1 {
				o.St.AddSticky(kind, e)
			}
		}
		return outs
	}
	imports := func(x *flow.Exec, s *flow.State, pos token.Pos, src *flow.Term) {
		if c.program(x, s, pos, src, plugins) {
			c.Obl("programs")
			return
		}
		text, each := "", false
		src.Walk(func(u *flow.Term) {
			if v, ok := u.IsStr(); ok {
				text += v
			}
			if u.Op == "loopphi" || u.Op == "mphi" {
				if rec := x.Rec[u]; rec != nil {
					for t := range rec.Init {
						t.Walk(func(u *flow.Term) {
							if v, ok := u.IsStr(); ok {
								text += v
							}
						})
					}
				}
				sum := x.LoopSums[x.SymLoop[u]]
				if sum == nil {
					return
				}
				over, elem, _ := sumElem(x, sum)
				if over != plugins || s.Has("left:"+x.SymLoop[u]) || len(sum.Iters) == 0 {
					return
				}
				all := true
				for _, it := range sum.Iters {
					step := it.Steps[u]
					all = all && step != nil && step.Mentions(elem) && step.Mentions(u)
					if step != nil {
						step.Walk(func(u *flow.Term) {
							if v, ok := u.IsStr(); ok {
								text += v
							}
						})
					}
				}
				each = each || all
			}
			if strings.HasPrefix(flow.CallName(u), "strings.Join") && u.Args[0] == plugins {
				each = true
			}
		})
		if !each {
			c.VP("imports", pos, s.Path(), "the program built does not import every plugin requested: its text is %s", src)
		}
		if !strings.Contains(text, "import _ ") && !strings.Contains(text, "_ \"") {
			c.VP("imports", pos, s.Path(), "the program built does not import the plugins for their effect")
		}
		if !strings.Contains(text, "booklitcmd.Main()") {
			c.VP("program", pos, s.Path(), "the program built does not run the command")
		}
		c.Obl("programs")
	}
	status := func(s *flow.State, pos token.Pos, code *flow.Term) {
		c.Obl("statuses")
		for _, it := range s.Items("nested") {
			e := it.Terms[0]
			cn := strings.SplitN(flow.CallName(code), "@", 2)[0]
			own := (strings.HasSuffix(cn, ".ExitCode") || strings.HasSuffix(cn, ").ExitStatus")) && (code.Mentions(e) || code.Mentions(it.Terms[1]))
			if s.IsNil(e) == 1 {
				if !isInt(code, 0) && !own {
					c.VP("status", pos, s.Path(), "the nested run succeeded, but the status is %s", code)
				}
				return
			}
			if !own {
				c.VP("status", pos, s.Path(), "the nested run failed, but the status is %s instead of its own", code)
			}
			if isTypeTest(s, e, exitT) != 1 && s.Decide(flow.Sym("as", flow.TypeKey(exitT), boolT, e)) != 1 && code.Mentions(e) {
				c.VP("nostatus", pos, s.Path(), "the nested run may have failed to start, and yet its status is used")
			}
			return
		}
		c.VP("exit", pos, s.Path(), "the command exits with status %s without a nested run", code)
	}
	r := &flow.Rule{}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if t, outs := asTarget(x, s, ci); t != nil {
			return outs, true
		}
		if outs, ok := c.builder(x, s, ci); ok {
			return outs, true
		}
		f := ci.Callee
		pkg := ""
		if f != nil && f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		} else if f != nil && f.Object() != nil && f.Object().Pkg() != nil {
			pkg = f.Object().Pkg().Path()
		}
		if ci.Go {
			return nil, false
		}
		switch {
		case ci.Name == "os.Exit":
			status(s, ci.Pos, ci.Args[0])
			return nil, true
		case ci.Name == "os.Getenv" || ci.Name == "os.LookupEnv":
			if k, ok := ci.Args[0].IsStr(); ok {
				s.AddSticky("asked", ci.Args[0])
				v := flow.Sym("env", k, strT)
				if ci.Name == "os.LookupEnv" {
					v = flow.Sym("tuple", "", nil, v, flow.Sym("envset", k, boolT))
				}
				return one(s, v), true
			}
		case ci.Name == "os.Setenv":
			s.AddSticky("setenv", ci.Args...)
		case ci.Name == "os.Environ":
			return one(s, flow.Sym("environ", "", f.Signature.Results().At(0).Type())), true
		case ci.Name == "os.RemoveAll":
			s.AddSticky("removed", ci.Args[0])
		case ci.Name == "os.WriteFile":
			if outs := fork(x, s, ci, "failed"); true {
				for _, o := range outs {
					if o.St.IsNil(o.Res) == 1 {
						o.St.AddSticky("source", ci.Args[0], ci.Args[1])
					}
				}
				return outs, true
			}
		case ci.Name == "os/exec.Command" || ci.Name == "os/exec.CommandContext":
			res := x.OpaqueResult(s, ci)
			s.Assume(flow.Eq(res, flow.Nil()), false)
			a := ci.Args
			if len(a) == 3 {
				a = a[1:]
			}
			s.AddSticky("process", res, a[0], a[1])
			return one(s, res), true
		case strings.HasPrefix(ci.Name, "(*os/exec.Cmd).") && last(f) != nil && isErrType(last(f)):
			p := ci.Args[0]
			outs := fork(x, s, ci, "failed")
			for _, it := range s.Items("process") {
				if it.Terms[0] != p || f.Name() == "Wait" {
					continue
				}
				if !it.Terms[2].Has(func(u *flow.Term) bool { return strings.HasSuffix(u.Str, "os.Args") }) {
					// the build
					if f.Name() == "Run" || f.Name() == "Start" {
						if v := get(s, p, "Stderr", nil); v.IsNil() || s.IsNil(v) == 1 || v.Op == "zero" || v == flow.Field(p, "Stderr", v.Typ) {
							c.VP("streams", ci.Pos, s.Path(), "why the build fails is not shown")
						}
					}
					for _, o := range outs {
						o.St.AddSticky("ran", it.Terms[2], get(s, p, "Env", types.NewSlice(strT)))
						for _, src := range s.Items("source") {
							if it.Terms[2].Mentions(src.Terms[0]) {
								imports(x, o.St, ci.Pos, src.Terms[1])
							}
						}
					}
					continue
				}
				c.Obl("nested runs")
				ms := markers(s)
				switch {
				case isSet(s, plugins) != 1:
					c.VP("needless", ci.Pos, s.Path(), "a nested run is started although no plugins may be requested")
				case len(ms) == 0:
					c.VP("endless", ci.Pos, s.Path(), "a nested run is started without knowing that this run is not nested itself")
				}
				if s.Count("nested") > 0 {
					c.VP("again", ci.Pos, s.Path(), "a second nested run is started")
				}
				if s.Count("ran") == 0 {
					c.VP("unbuilt", ci.Pos, s.Path(), "the nested run is started without building it")
				}
				for _, b := range s.Items("ran") {
					for _, src := range s.Items("source") {
						if b.Terms[0].Mentions(src.Terms[0]) {
							c.installs(x, s, ci.Pos, b.Terms[0], b.Terms[1], src.Terms[0], it.Terms[1])
						}
					}
				}
				for _, rm := range s.Items("removed") {
					if it.Terms[1] == rm.Terms[0] || it.Terms[1].Mentions(rm.Terms[0]) {
						c.VP("removed", ci.Pos, s.Path(), "the program built is removed before it is run")
					}
				}
				if !isArgs(it.Terms[2]) {
					c.VP("arguments", ci.Pos, s.Path(), "the nested run gets the arguments %s", it.Terms[2])
				}
				var sliceT types.Type = types.NewSlice(strT)
				env := get(s, p, "Env", sliceT)
				ok := false
				ps, known := pieces(x, env)
				all := false
				for _, pc := range ps {
					if pc.Spread != nil && pc.Spread.Op == "environ" {
						all = true
					}
					for _, m := range ms {
						if pc.One != nil {
							if v, isS := pc.One.IsStr(); isS && strings.HasPrefix(v, m+"=") {
								ok = len(v) > len(m)+1
							}
						}
					}
				}
				for _, m := range ms {
					for _, set := range s.Items("setenv") {
						if v, isS := set.Terms[1].IsStr(); set.Terms[0] == flow.StrConst(m) && isS && v != "" && (all || known && len(ps) == 0 || env.Op == "field") {
							ok, all = true, true
						}
					}
				}
				if len(ms) > 0 && !ok {
					c.VP("marker", ci.Pos, s.Path(), "the nested run is not marked as such: its environment is %s", env)
				}
				if !all {
					c.VP("environment", ci.Pos, s.Path(), "the nested run does not get the command's environment: %s", env)
				}
				if f.Name() == "Run" || f.Name() == "Start" {
					for _, n := range []string{"Stdout", "Stderr"} {
						if v := get(s, p, n, nil); !stdStream(v) {
							c.VP("streams", ci.Pos, s.Path(), "the %s of the nested run is %s", n, v)
						}
					}
				}
				for _, o := range outs {
					e := o.Res
					if n := f.Signature.Results().Len(); n > 1 {
						e = flow.Sym("result", itoa(n-1), last(f), o.Res)
					}
					o.St.Del("failed", e)
					o.St.AddSticky("nested", e, p)
				}
			}
			return outs, true
		case pkg == mod+"/load" && last(f) != nil && isErrType(last(f)),
			pkg == mod+"/render" && (f.Name() == "RenderSection" || f.Name() == "WriteSection" || f.Name() == "WriteSearchIndex"),
			pkg == "net/http" && f.Name() == "ListenAndServe":
			c.Obl("own work")
			s.AddSticky("work")
			if isSet(s, plugins) != 0 && !present(s) {
				c.VP("pluginless", ci.Pos, s.Path(), "the command works by itself although plugins may be requested")
			}
			return fork(x, s, ci, "failed"), true
		case f != nil && f.Parent() == nil && pkg == cmdPkg:
			return nil, false // inlined
		case f != nil && f.Parent() == nil && x.InModule(f) && (last(f) == nil || !isErrType(last(f))):
			return one(s, x.OpaqueResult(s, ci)), true
		case strings.Contains(ci.Name, "logrus"):
			if f != nil && f.Signature.Results().Len() == 0 {
				return one(s, flow.Nil()), true
			}
		case pkg == "fmt" || pkg == "errors":
			return nil, false
		case last(f) != nil && isErrType(last(f)) && ci.Defer:
			return one(s, x.OpaqueResult(s, ci)), true
		case last(f) != nil && isErrType(last(f)) && f.Parent() == nil && f.Name() != "Close" && f.Name() != "RemoveAll" && f.Name() != "StartCPUProfile":
			return fork(x, s, ci, "failed"), true
		}
		return nil, false
	}
	_, exits := c.run(r, exe, []*flow.Term{cmd, flow.Sym("param", "args", exe.Params[1].Type())}, func(s *flow.State) {
		o, ok := opts["plugin"]
		if !ok {
			c.V("option:plugin", exe.Pos(), "there is no option --plugin")
			panic(abort{})
		}
		plugins = o.of(s, cmd)
	})
	for _, e := range exits {
		if len(e.Res) == 0 {
			continue
		}
		c.Obl("ways out of Execute")
		s, res := e.St, e.Res[len(e.Res)-1]
		if s.Count("nested") > 0 {
			it := s.Items("nested")[0]
			if s.IsNil(it.Terms[0]) == 1 {
				if s.IsNil(res) != 1 {
					c.VP("fails", e.Pos, s.Path(), "the command fails although the nested run succeeded")
				}
				continue
			}
			if isTypeTest(s, it.Terms[0], exitT) != 0 && s.Decide(flow.Sym("as", flow.TypeKey(exitT), boolT, it.Terms[0])) != 0 {
				c.VP("status", e.Pos, s.Path(), "the status of the nested run may not become the command's own")
			}
			if s.IsNil(res) != 0 || !res.Mentions(it.Terms[0]) {
				c.VP("swallowed", e.Pos, s.Path(), "a nested run which cannot be started is not reported")
			}
			continue
		}
		failed := s.Items("failed")
		if len(failed) > 0 {
			told := false
			for _, it := range failed {
				told = told || res.Mentions(it.Terms[0])
			}
			if !told || s.IsNil(res) != 0 {
				c.VP("swallowed", e.Pos, s.Path(), "a failure is not reported: the result is %s after %v", res, failed)
			}
			continue
		}
		if s.Count("work") == 0 && s.IsNil(res) != 0 {
			c.VP("idle", e.Pos, s.Path(), "the command succeeds without doing anything")
		}
	}
	c.Need("ways out of Execute", 4)
	c.Need("nested runs", 1)
	c.Need("statuses", 1)
	c.Need("programs", 1)
	c.Need("own work", 2)
}
