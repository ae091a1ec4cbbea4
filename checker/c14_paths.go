package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

// flat lists the constants and symbols a text is joined from.
func flat(t *flow.Term) []*flow.Term {
	if t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op == "strcat" {
		return t.Args
	}
	if s, ok := t.IsStr(); ok && s == "" {
		return nil
	}
	return []*flow.Term{t}
}

// cutEnd removes a suffix from a text of known parts: 1 if it certainly ends
// with it, 0 if it certainly does not, -1 if that depends on its symbols.
func cutEnd(text, suffix []*flow.Term) ([]*flow.Term, int) {
	text, suffix = append([]*flow.Term{}, text...), append([]*flow.Term{}, suffix...)
	for len(suffix) > 0 {
		if len(text) == 0 {
			return nil, 0
		}
		a, b := text[len(text)-1], suffix[len(suffix)-1]
		x, xs := a.IsStr()
		y, ys := b.IsStr()
		switch {
		case a == b:
			text, suffix = text[:len(text)-1], suffix[:len(suffix)-1]
		case xs && ys && strings.HasSuffix(x, y):
			text[len(text)-1] = flow.StrConst(strings.TrimSuffix(x, y))
			if len(x) == len(y) {
				text = text[:len(text)-1]
			}
			suffix = suffix[:len(suffix)-1]
		case xs && ys && strings.HasSuffix(y, x):
			suffix[len(suffix)-1] = flow.StrConst(strings.TrimSuffix(y, x))
			text = text[:len(text)-1]
		case xs && ys:
			return nil, 0
		case xs:
			// a constant text without the constants of the suffix
			for _, p := range suffix {
				if s, ok := p.IsStr(); ok && len(text) == 1 && !strings.Contains(x, s) {
					return nil, 0
				}
			}
			return nil, -1
		default:
			return nil, -1
		}
	}
	return text, 1
}

func cutFront(text, prefix []*flow.Term) ([]*flow.Term, int) {
	text, prefix = append([]*flow.Term{}, text...), append([]*flow.Term{}, prefix...)
	for len(prefix) > 0 {
		if len(text) == 0 {
			return nil, 0
		}
		x, xs := text[0].IsStr()
		y, ys := prefix[0].IsStr()
		switch {
		case text[0] == prefix[0]:
			text, prefix = text[1:], prefix[1:]
		case xs && ys && strings.HasPrefix(x, y):
			text[0] = flow.StrConst(strings.TrimPrefix(x, y))
			if len(x) == len(y) {
				text = text[1:]
			}
			prefix = prefix[1:]
		case xs && ys && strings.HasPrefix(y, x):
			prefix[0] = flow.StrConst(strings.TrimPrefix(y, x))
			text = text[1:]
		case xs && ys:
			return nil, 0
		default:
			return nil, -1
		}
	}
	return text, 1
}

// cutAt splits a text of known parts at an offset which is a sum of lengths.
func cutAt(text []*flow.Term, at lin) (before, after []*flow.Term, ok bool) {
	for i := 0; ; i++ {
		if len(at.m) == 0 && at.k == 0 {
			return text[:i], text[i:], true
		}
		if i == len(text) {
			return nil, nil, false
		}
		if s, isS := text[i].IsStr(); isS {
			if len(at.m) == 0 && at.k > 0 && at.k < int64(len(s)) {
				before = append(append(before, text[:i]...), flow.StrConst(s[:at.k]))
				return before, append([]*flow.Term{flow.StrConst(s[at.k:])}, text[i+1:]...), true
			}
			at.k -= int64(len(s))
			continue
		}
		at = at.add(linOf(flow.Len(text[i])), -1)
	}
}

// resolve carries out slicing of texts of known parts.
func resolve(t *flow.Term) *flow.Term {
	switch t.Op {
	case "conv":
		return resolve(t.Args[0])
	case "strcat":
		out := []*flow.Term{}
		for _, a := range t.Args {
			out = append(out, resolve(a))
		}
		return flow.StrCat(out...)
	case "slice":
		text := flat(resolve(t.Args[0]))
		if !t.Args[2].IsNil() {
			b, _, ok := cutAt(text, linOf(t.Args[2]))
			if !ok {
				return t
			}
			text = b
		}
		_, a, ok := cutAt(text, linOf(t.Args[1]))
		if !ok {
			return t
		}
		return flow.StrCat(a...)
	}
	return t
}

// pathText models the functions which take texts of known parts apart. no says
// which tests fail although the parts do not tell.
func pathText(s *flow.State, ci *flow.CallInfo, ext *flow.Term, no func(text []*flow.Term) bool) (*flow.Term, bool) {
	if !strings.HasPrefix(ci.Name, "strings.") && !strings.HasPrefix(ci.Name, "path.") && !strings.HasPrefix(ci.Name, "path/filepath.") || len(ci.Args) == 0 {
		return nil, false
	}
	text := flat(resolve(ci.Args[0]))
	whole := flow.StrCat(text...)
	name := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]
	if name == "Ext" {
		n := len(text)
		if n > 1 && text[n-1] == ext {
			if d, ok := text[n-2].IsStr(); ok && strings.HasSuffix(d, ".") {
				return flow.StrCat(flow.StrConst("."), ext), true
			}
		}
		if no(text) {
			o := flow.Sym("param", "another extension", ext.Typ)
			e := flow.StrCat(flow.StrConst("."), o)
			if s.Assume(flow.Eq(o, ext), false) && s.Assume(flow.Eq(e, flow.StrCat(flow.StrConst("."), ext)), false) {
				return e, true
			}
		}
		if n == 1 {
			if d, ok := text[0].IsStr(); ok && !strings.Contains(d, ".") {
				return flow.StrConst(""), true
			}
		}
		return nil, false
	}
	if len(ci.Args) < 2 {
		return nil, false
	}
	part := flat(resolve(ci.Args[1]))
	end := strings.HasSuffix(name, "Suffix")
	if set, ok := flow.StrCat(part...).IsStr(); ok && (name == "TrimLeft" || name == "Trim" && !no(text)) && set == "/" {
		end, name = false, "TrimPrefix"
	}
	if !end && !strings.HasSuffix(name, "Prefix") {
		return nil, false
	}
	cut := cutFront
	if end {
		cut = cutEnd
	}
	rest, has := cut(text, part)
	if has < 0 {
		if !end || !no(text) {
			return nil, false
		}
		has = 0
	}
	if has == 0 {
		rest = text
	}
	out := whole
	if has == 1 {
		out = flow.StrCat(rest...)
	}
	switch name {
	case "HasSuffix", "HasPrefix":
		return flow.Bool(has == 1), true
	case "TrimSuffix", "TrimPrefix":
		return out, true
	case "CutSuffix", "CutPrefix":
		return flow.Sym("tuple", "", nil, out, flow.Bool(has == 1)), true
	}
	return nil, false
}

// requestPaths checks which section a path asks for: "/" for the index, a path
// ending in the engine's extension for the tag it names, any other for none.
func (c *C) requestPaths(srv types.Type, serve, find *ssa.Function, static string) {
	strT := types.Typ[types.String]
	ext := flow.Sym("param", "extension", strT)
	name := flow.Sym("param", "name", strT)
	other := flow.Sym("param", "other", strT)
	slash := flow.StrConst("/")
	for _, k := range []struct {
		what       string
		path, want *flow.Term
	}{
		{"/", slash, flow.StrConst("index")},
		{"/NAME.EXT", flow.StrCat(slash, name, flow.StrConst("."), ext), name},
		{"any other path", flow.StrCat(slash, other), nil},
		{"a path without a dot before the extension", flow.StrCat(slash, other, ext), nil},
	} {
		k := k
		recv := flow.Sym("param", "server", types.NewPointer(srv))
		w := flow.Sym("param", "w", serve.Params[1].Type())
		req := flow.Sym("param", "r", serve.Params[2].Type())
		no := func(text []*flow.Term) bool {
			for _, p := range text {
				if k.want == nil && p == other {
					return true
				}
			}
			return false
		}
		searched := false
		r := &flow.Rule{}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			f := ci.Callee
			if t, ok := pathText(s, ci, ext, no); ok {
				return one(s, t), true
			}
			switch {
			case strings.HasSuffix(ci.Name, ").FileExtension"):
				return one(s, ext), true
			case f != nil && x.InModule(f) && f.Pkg != nil && f.Pkg.Pkg.Path() == mod+"/load" && f.Signature.Recv() != nil && f.Signature.Results().Len() > 0 && isErrType(f.Signature.Results().At(f.Signature.Results().Len()-1).Type()):
				outs := forkErr(x, s, ci)
				for _, o := range outs {
					t := ci.Result.(*types.Tuple)
					if e := flow.Sym("result", itoa(t.Len()-1), t.At(t.Len()-1).Type(), o.Res); o.St.IsNil(e) != 1 {
						o.St.AddSticky("failed")
					}
				}
				return outs, true
			case f == find:
				searched = true
				c.Obl("paths looked up")
				got := resolve(ci.Args[1])
				switch {
				case k.want == nil:
					c.VP("path:other", ci.Pos, s.Path(), "a path which does not end in the engine's extension is looked up as the section %s", got)
				case got != k.want && s.Decide(flow.Eq(got, k.want)) != 1:
					c.VP("path", ci.Pos, s.Path(), "%s is looked up as the section %s instead of %s", k.what, got, k.want)
				}
				return nil, true
			case strings.HasSuffix(ci.Name, ").ServeHTTP"):
				for i, a := range ci.Args {
					if i > 0 && unwrap(a) != []*flow.Term{nil, w, req}[i] {
						c.VP("path:file", ci.Pos, s.Path(), "the static file handler is given %s instead of the request", a)
					}
				}
				s.AddSticky("file")
				return one(s, flow.Nil()), true
			}
			return nil, false
		}
		_, exits := c.run(r, serve, []*flow.Term{recv, w, req}, func(s *flow.State) {
			urlT := fieldTypeOf(req.Typ, "URL")
			url := s.LoadField(req, "URL", urlT)
			s.StoreTo(flow.FieldAddr(url, "Path", strT), k.path)
			if k.path != slash {
				s.Assume(flow.Eq(k.path, slash), false)
				s.Assume(flow.Lt(flow.Int(1), flow.Len(k.path)), true)
			}
			s.Assume(flow.Eq(flow.Elem(k.path, flow.Int(0), types.Typ[types.Byte]), flow.Int('/')), true)
		})
		for _, e := range exits {
			c.Obl("paths answered")
			if k.want != nil && !e.St.Has("failed") {
				c.VP("path:unsearched", e.Pos, e.St.Path(), "%s is answered without looking for its section", k.what)
			}
			if k.want == nil && !e.St.Has("file") && !e.St.Has("failed") {
				c.VP("path:unserved", e.Pos, e.St.Path(), "a path which names no section is not left to the static file handler")
			}
		}
		if k.want != nil && !searched {
			c.V("path:never", serve.Pos(), "%s is never looked up", k.what)
		}
	}
	c.Need("paths looked up", 2)
	c.Need("paths answered", 2)
}
