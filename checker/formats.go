package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// formats: formatting functions get constant formats which use all operands.
// Functions which pass a format parameter on are formatting functions too.
func (c *C) formats() {
	fs := []*ssa.Function{}
	for _, p := range c.P.scope() {
		fs = append(fs, c.P.allFuncs(p.PkgPath)...)
	}
	wraps := map[*ssa.Function]int{} // function -> index of its format parameter
	takes := func(ci *ssa.CallCommon) int {
		sig := ci.Signature()
		if !sig.Variadic() || sig.Params().Len() < 2 {
			return -1
		}
		last, ok := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice)
		if !ok || !types.IsInterface(last.Elem()) {
			return -1
		}
		off := 0
		if sig.Recv() != nil && !ci.IsInvoke() {
			off = 1
		}
		at := sig.Params().Len() - 2
		if b, ok := sig.Params().At(at).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return -1
		}
		if g := ci.StaticCallee(); g != nil {
			if i, ok := wraps[g]; ok {
				return i
			}
			if g.Pkg == nil || g.Pkg.Pkg.Path() == mod || strings.HasPrefix(g.Pkg.Pkg.Path(), mod+"/") || !strings.HasSuffix(g.Name(), "f") {
				return -1
			}
			return at + off
		}
		if ci.IsInvoke() && strings.HasSuffix(ci.Method.Name(), "f") {
			return at + off
		}
		return -1
	}
	// constants a format may be; false if it may be anything else
	var consts func(v ssa.Value, seen map[ssa.Value]bool, f *ssa.Function) ([]string, bool)
	consts = func(v ssa.Value, seen map[ssa.Value]bool, f *ssa.Function) ([]string, bool) {
		if seen[v] {
			return nil, true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && v.Value.Kind() == constant.String {
				return []string{constant.StringVal(v.Value)}, true
			}
		case *ssa.ChangeType:
			return consts(v.X, seen, f)
		case *ssa.Phi:
			out := []string{}
			for _, e := range v.Edges {
				s, ok := consts(e, seen, f)
				if !ok {
					return nil, false
				}
				out = append(out, s...)
			}
			return out, true
		case *ssa.BinOp:
			a, ok1 := consts(v.X, seen, f)
			b, ok2 := consts(v.Y, seen, f)
			if ok1 && ok2 {
				out := []string{}
				for _, x := range a {
					for _, y := range b {
						out = append(out, x+y)
					}
				}
				return out, true
			}
		}
		return nil, false
	}
	param := func(v ssa.Value, f *ssa.Function) int {
		for i, p := range f.Params {
			if p == v {
				return i
			}
		}
		return -1
	}
	each := func(do func(f *ssa.Function, ci ssa.CallInstruction, at int)) {
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if at := takes(ci.Common()); at >= 0 {
							do(f, ci, at)
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		each(func(f *ssa.Function, ci ssa.CallInstruction, at int) {
			if i := param(ci.Common().Args[at], f); i >= 0 {
				if _, ok := wraps[f]; !ok {
					wraps[f] = i
					changed = true
				}
			}
		})
	}
	each(func(f *ssa.Function, ci ssa.CallInstruction, at int) {
		c.Obl("formats")
		args := ci.Common().Args
		if param(args[at], f) >= 0 {
			return
		}
		forms, ok := consts(args[at], map[ssa.Value]bool{}, f)
		if !ok {
			c.V("format:"+f.Name(), ci.Pos(), "text which is not constant is used as a format in %s", f.Name())
			return
		}
		n := given(args[len(args)-1])
		for _, s := range forms {
			if k := verbs(s); n >= 0 && k >= 0 && k != n {
				c.V("format:"+f.Name(), ci.Pos(), "the format %q uses %d of %d operands in %s", s, k, n, f.Name())
			}
		}
	})
}

// given is the number of operands of a call, -1 if unknown.
func given(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const:
		return 0
	case *ssa.Slice:
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok && v.Low == nil && v.High == nil {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return int(a.Len())
			}
		}
	}
	return -1
}

// verbs counts the operands a format uses, -1 if it says so explicitly.
func verbs(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			return n
		}
		switch s[i] {
		case '[', '*':
			return -1
		case '%':
		default:
			n++
		}
	}
	return n
}
