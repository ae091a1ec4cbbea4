package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C10", Title: "Files, locks, timers and temporary directories are released on every path",
		Rule:  "Typestate analysis of every live function of the module, executed abstractly with its deferred calls: what os.Open, Create, OpenFile, CreateTemp, MkdirTemp, Mutex.Lock, time.AfterFunc and pprof.StartCPUProfile acquire must be released (closed, removed, unlocked, stopped) on every path to every return, for temporary directories also before the process exits, unless it is returned or kept in a structure; no iteration may drop what an earlier one acquired. A lock is never unlocked unless held, nor locked while held, and while it is held no function is called which may, directly or through calls, take a lock of the same kind.",
		Trust: []string{"code outside the module does not call back into functions which take locks, except visitors and plugins, which are resolved by type"},
		Run:   runC10,
	})
}

// acquiring calls: result index of the resource, and what kind it is
var acquires = map[string]string{
	"os.Open": "file", "os.Create": "file", "os.OpenFile": "file", "os.CreateTemp": "file", "io/ioutil.TempFile": "file",
	"os.MkdirTemp": "directory", "io/ioutil.TempDir": "directory",
	"time.AfterFunc": "timer", "time.NewTimer": "timer", "time.NewTicker": "timer",
	"runtime/pprof.StartCPUProfile": "profile",
	"(*sync.Mutex).Lock":            "lock", "(*sync.RWMutex).Lock": "lock", "(*sync.RWMutex).RLock": "lock", "invoke:(sync.Locker).Lock": "lock",
}

func releases(name string) (kind string) {
	switch name {
	case "(*os.File).Close":
		return "file"
	case "os.RemoveAll", "os.Remove":
		return "directory"
	case "(*time.Timer).Stop", "(*time.Ticker).Stop":
		return "timer"
	case "runtime/pprof.StopCPUProfile":
		return "profile"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "invoke:(sync.Locker).Unlock":
		return "lock"
	}
	return ""
}

func calleeName(i ssa.Instruction) string {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if s := call.Common().StaticCallee(); s != nil {
		return flow.FuncName(s)
	}
	if call.Common().IsInvoke() {
		return "invoke:(" + call.Common().Value.Type().String() + ")." + call.Common().Method.Name()
	}
	return ""
}

// lockClass names what kind of lock a value is: the field or variable holding it.
func lockClass(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.FieldAddr:
			pt := x.X.Type().Underlying().(*types.Pointer).Elem()
			return pt.String() + "." + structOf(pt).Field(x.Field).Name()
		case *ssa.Global:
			return x.String()
		case *ssa.FreeVar:
			if p := x.Parent().Parent(); p != nil {
				for _, b := range p.Blocks {
					for _, i := range b.Instrs {
						if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() {
							for k, fv := range x.Parent().FreeVars {
								if fv == x {
									return lockClass(mc.Bindings[k])
								}
							}
						}
					}
				}
			}
		}
		return v.Type().String() + ":" + v.Name()
	}
}

// locksOf is the kinds of locks a function may take, itself or through calls.
func (c *C) locksOf() map[*ssa.Function]map[string]bool {
	direct := map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function]map[*ssa.Function]bool{}
	var all []*ssa.Function
	byMethod := map[string][]*ssa.Function{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			all = append(all, f)
			if f.Signature.Recv() != nil {
				byMethod[f.Name()] = append(byMethod[f.Name()], f)
			}
		}
	}
	for _, f := range all {
		direct[f] = map[string]bool{}
		callees[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				if acquires[calleeName(i)] == "lock" {
					v := call.Common().Value
					if !call.Common().IsInvoke() {
						v = call.Common().Args[0]
					}
					direct[f][lockClass(v)] = true
				}
				cc := call.Common()
				if cc.IsInvoke() {
					it, _ := cc.Value.Type().Underlying().(*types.Interface)
					for _, m := range byMethod[cc.Method.Name()] {
						rt := m.Signature.Recv().Type()
						if it != nil && (types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it)) {
							callees[f][m] = true
						}
					}
				}
				if s := cc.StaticCallee(); s != nil {
					callees[f][s] = true
					// function values handed to code outside the module run there,
					// unless they are run later
					if (s.Pkg == nil || !strings.HasPrefix(s.Pkg.Pkg.Path(), mod)) && flow.FuncName(s) != "time.AfterFunc" {
						for _, a := range cc.Args {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								callees[f][mc.Fn.(*ssa.Function)] = true
							}
							if g, ok := a.(*ssa.Function); ok {
								callees[f][g] = true
							}
						}
					}
					// templates and plugins are called through reflection
					n := flow.FuncName(s)
					if strings.HasSuffix(n, "template.Template).Execute") || strings.HasSuffix(n, "template.Template).ExecuteTemplate") {
						for _, m := range all {
							if m.Signature.Recv() != nil && token.IsExported(m.Name()) && strings.HasSuffix(m.Pkg.Pkg.Path(), "/render") || m.Parent() != nil && m.Pkg != nil && strings.HasSuffix(m.Pkg.Pkg.Path(), "/render") {
								callees[f][m] = true
							}
						}
					}
					if n == "(reflect.Value).Call" {
						for _, m := range all {
							if m.Signature.Recv() != nil && token.IsExported(m.Name()) && typeName(m.Signature.Recv().Type()) == "Plugin" {
								callees[f][m] = true
							}
						}
					}
				} else if !cc.IsInvoke() {
					// a function kept somewhere: any closure of that type
					for _, m := range all {
						if m.Parent() != nil && types.Identical(m.Signature, cc.Signature()) {
							callees[f][m] = true
						}
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range all {
			for g := range callees[f] {
				for k := range direct[g] {
					if !direct[f][k] {
						direct[f][k] = true
						again = true
					}
				}
			}
		}
	}
	c.callees = callees
	return direct
}

func runC10(c *C) {
	locks := c.locksOf()
	// helpers which take or release locks for their callers
	called := map[*ssa.Function]bool{}
	takes := map[*ssa.Function]bool{}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
						called[call.Common().StaticCallee()] = true
					}
					if n := calleeName(i); acquires[n] != "" || releases(n) != "" {
						takes[f] = true
					}
				}
			}
		}
	}
	helper := func(f *ssa.Function) bool {
		return ownClosure(f) || takes[f] && called[f] && f.Parent() == nil && !token.IsExported(f.Name()) && f.Name() != "init"
	}
	for _, pk := range c.P.scope() {
		for _, f := range c.P.allFuncs(pk.PkgPath) {
			file := c.P.Fset.Position(f.Pos()).Filename
			if len(f.Blocks) == 0 || !c.P.live()[f] || strings.HasSuffix(file, ".peg.go") && f.Signature.Recv() != nil || helper(f) {
				continue
			}
			need := false
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if n := calleeName(i); acquires[n] != "" || releases(n) == "lock" {
						need = true
					}
					if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && helper(call.Common().StaticCallee()) {
						need = true
					}
					if mc, ok := i.(*ssa.MakeClosure); ok && ownClosure(mc.Fn.(*ssa.Function)) {
						need = true
					}
				}
			}
			if need {
				c.resources(f, helper, locks)
			}
		}
	}
	c.Need("acquisitions", 6)
	c.Need("releases", 6)
}

func (c *C) resources(f *ssa.Function, helper func(*ssa.Function) bool, locks map[*ssa.Function]map[string]bool) {
	name := short(f.String())
	at := map[string]token.Pos{}
	class := map[*flow.Term]string{}
	kindOf := func(k string) *flow.Term { return flow.StrConst(k) }
	r := &flow.Rule{Inline: func(g *ssa.Function) bool {
		return helper(g) || g.Parent() != nil && helper(g.Parent()) || c.errHelper(g)
	}}
	held := func(s *flow.State, kind string, res *flow.Term, pos token.Pos) {
		s.AddSticky("held", kindOf(kind), res)
		at[kind+res.String()] = pos
	}
	check := func(s *flow.State, pos token.Pos, kinds map[string]bool, how string, mentioned func(*flow.Term) bool) {
		for _, k := range []string{"held", "dropped"} {
			for _, it := range s.Items(k) {
				kind, _ := it.Terms[0].IsStr()
				if kinds != nil && !kinds[kind] || mentioned != nil && mentioned(it.Terms[1]) {
					continue
				}
				c.VP("leak:"+kind+":"+name, at[kind+it.Terms[1].String()], s.Path(), "the %s acquired here by %s can be left unreleased when it %s at %s", kind, name, how, c.P.pos(pos))
			}
		}
	}
	instrLock := func(ci *flow.CallInfo) ssa.Value {
		cc := ci.Instr.Common()
		if cc.IsInvoke() {
			return cc.Value
		}
		return cc.Args[0]
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if ci.Go {
			for _, a := range ci.Args {
				for _, it := range s.Items("held") {
					if it.Terms[1] == unwrap(a) {
						s.Del("held", it.Terms...)
					}
				}
			}
			return nil, false
		}
		if kind := releases(ci.Name); kind != "" && (kind == "profile" || len(ci.Args) > 0) {
			var res *flow.Term
			if kind == "profile" {
				res = flow.StrConst("profile")
			} else {
				res = unwrap(ci.Args[0])
			}
			c.Obl("releases")
			if kind == "lock" {
				if !s.Has("held", kindOf(kind), res) {
					c.VP("unlock:"+name, ci.Pos, s.Path(), "%s releases a lock it does not hold", name)
				}
				s.Del("held", kindOf(kind), res)
				return one(s, flow.Nil()), true
			}
			for _, k := range []string{"held", "dropped"} {
				if k == "dropped" && !ci.Defer {
					continue
				}
				s.Del(k, kindOf(kind), res)
			}
			return nil, false
		}
		if kind := acquires[ci.Name]; kind != "" {
			c.Obl("acquisitions")
			switch kind {
			case "lock":
				res := unwrap(ci.Args[0])
				if s.Has("held", kindOf(kind), res) {
					c.VP("deadlock:"+name, ci.Pos, s.Path(), "%s takes a lock it already holds", name)
				}
				class[res] = lockClass(instrLock(ci))
				held(s, kind, res, ci.Pos)
				return one(s, flow.Nil()), true
			case "timer":
				res := x.OpaqueResult(s, ci)
				held(s, kind, res, ci.Pos)
				return one(s, res), true
			case "profile":
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					if o.St.IsNil(o.Res) == 1 {
						held(o.St, kind, flow.StrConst("profile"), ci.Pos)
					}
				}
				return outs, true
			}
			outs := forkErr(x, s, ci)
			sig := ci.Instr.Common().Signature()
			for _, o := range outs {
				e := flow.Sym("result", "1", sig.Results().At(1).Type(), o.Res)
				if o.St.IsNil(e) == 1 {
					held(o.St, kind, flow.Sym("result", "0", sig.Results().At(0).Type(), o.Res), ci.Pos)
				}
			}
			return outs, true
		}
		if ci.Name == "os.Exit" || strings.HasPrefix(ci.Name, "log.Fatal") || strings.Contains(ci.Name, "logrus.Fatal") {
			check(s, ci.Pos, map[string]bool{"directory": true}, "exits the process", nil)
			return nil, false
		}
		// calls made while locks are held
		if ci.Callee != nil && x.InlineOK(s, ci.Callee) {
			return nil, false
		}
		for _, it := range s.Items("held") {
			if k, _ := it.Terms[0].IsStr(); k != "lock" {
				continue
			}
			cl := class[it.Terms[1]]
			c.Obl("calls under a lock")
			for g := range c.calleesOf(ci) {
				if locks[g][cl] {
					c.VP("deadlock:"+name+":"+short(cl), ci.Pos, s.Path(), "%s calls %s, which may take %s, while holding it", name, short(g.String()), short(cl))
				}
			}
		}
		return nil, false
	}
	r.Store = func(x *flow.Exec, s *flow.State, addr, v *flow.Term, instr ssa.Instruction) {
		root := addr
		for root.Op == "fa" || root.Op == "ia" {
			root = root.Args[0]
		}
		if root.Op == "alloc" {
			return
		}
		for _, it := range s.Items("held") {
			if unwrap(v) == it.Terms[1] {
				s.Del("held", it.Terms...)
			}
		}
	}
	r.LoopEnter = func(x *flow.Exec, s *flow.State, l *flow.Loop) {
		for _, it := range s.Items("pre:" + l.Key) {
			s.Del(it.Kind, it.Terms...)
		}
		for _, it := range s.Items("held") {
			s.AddSticky("pre:"+l.Key, it.Terms...)
		}
	}
	r.BackEdge = func(x *flow.Exec, s *flow.State, l *flow.Loop) {
		for _, it := range s.Items("held") {
			if k, _ := it.Terms[0].IsStr(); k != "lock" && !s.Has("pre:"+l.Key, it.Terms...) {
				s.Del("held", it.Terms...)
				s.AddSticky("dropped", it.Terms...)
			}
		}
	}
	_, exits := c.run(r, f, nil, nil)
	for _, e := range exits {
		c.Obl("ways out")
		check(e.St, e.Pos, nil, "returns", func(t *flow.Term) bool {
			for _, res := range e.Res {
				if holds(res, t) {
					return true
				}
			}
			return false
		})
	}
}

// calleesOf is what a call may run within the module.
func (c *C) calleesOf(ci *flow.CallInfo) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	if ci.Callee != nil {
		out[ci.Callee] = true
		if g := ci.Callee; c.callees[g] == nil {
			// outside the module: what it is given may be run
			for _, a := range ci.Instr.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && ci.Name != "time.AfterFunc" {
					out[mc.Fn.(*ssa.Function)] = true
				}
			}
			if strings.HasSuffix(ci.Name, "template.Template).Execute") || strings.HasSuffix(ci.Name, "template.Template).ExecuteTemplate") || ci.Name == "(reflect.Value).Call" {
				for g := range c.callees[ci.Instr.Parent()] {
					out[g] = true
				}
			}
		}
		return out
	}
	if ci.Method != nil {
		for g := range c.callees[ci.Instr.Parent()] {
			if g.Name() == ci.Method.Name() {
				out[g] = true
			}
		}
		return out
	}
	for g := range c.callees[ci.Instr.Parent()] {
		if g.Parent() != nil {
			out[g] = true
		}
	}
	return out
}
