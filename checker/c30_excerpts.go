package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/flow"
)

func init() {
	register(checkDef{
		ID: "C30", Title: "Describing an error never fails because of its location",
		Rule:  "Bounds analysis with linear facts (branch conditions of the path, intervals, lengths and constructors' lower bounds, decided by Fourier-Motzkin elimination) of every slicing, indexing and repetition in the functions which print or render errors. Locations are only made with a non-negative length. On every path of the functions which write an excerpt: without a line nothing is written; the line read is the one of the location, by counting the reads per iteration of the skipping loop and after it; in text, the marker starts below the location's column behind whatever precedes the line, and is as long as the location; in HTML, the parts before, at and behind the location are cut from the characters of the line, adjacent, at the location's column and length, and the whole line is shown unmarked only if the location does not lie within it.",
		Trust: []string{"lines, columns and offsets of parsed nodes are not negative"},
		Run:   runC30,
	})
}

// nonNegative holds of lines, columns, offsets and lengths of locations.
func nonNegative(t *flow.Term) bool {
	if t.Op == "field" || t.Op == "deref" {
		switch t.Str {
		case "Line", "Col", "Offset", "Length":
			return true
		}
	}
	return strings.HasPrefix(flow.CallName(t), "strings.Count") || strings.HasPrefix(flow.CallName(t), "unicode/utf8.RuneCount")
}

func runC30(c *C) {
	locT := c.P.named(mod, "ErrorLocation")
	nodeLocT := c.P.named(astPkg, "Location")
	pretty := c.P.iface(mod, "PrettyError")
	if locT == nil || nodeLocT == nil || pretty == nil {
		c.V("anchor:ErrorLocation", token.NoPos, "errors have no locations or detailed forms")
		return
	}
	intT := types.Typ[types.Int]
	text := c.meth(mod, "ErrorLocation", "AnnotateLocation")
	html := c.meth(mod, "ErrorLocation", "AnnotatedHTML")
	// bounds
	bounds := func(x *flow.Exec, s *flow.State, ins ssa.Instruction) {
		le := func(a, b lin) bool { return proves(s, nonNegative, a.add(b, -1)) }
		at := func(v ssa.Value) lin { return linOf(x.Val(s, v)) }
		switch i := ins.(type) {
		case *ssa.Slice:
			if i.Low == nil && i.High == nil {
				return
			}
			c.Obl("slices")
			lo := linInt(0)
			if i.Low != nil {
				lo = at(i.Low)
			}
			n := linOf(flow.Len(x.Val(s, i.X)))
			hi := n
			if i.High != nil {
				hi = at(i.High)
			}
			if !le(linInt(0), lo) || !le(lo, hi) || !le(hi, n) {
				c.VP("slice", i.Pos(), s.Path(), "a slice may be out of bounds: %s", i.String())
			}
		case *ssa.IndexAddr:
			if _, ok := i.Index.(*ssa.Const); ok {
				if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
					if _, ok := p.Elem().Underlying().(*types.Array); ok {
						return
					}
				}
			}
			c.Obl("indices")
			n := linOf(flow.Len(x.Val(s, i.X)))
			k := at(i.Index)
			if !le(linInt(0), k) || !le(k.add(linInt(1), 1), n) {
				c.VP("index", i.Pos(), s.Path(), "an index may be out of bounds: %s", i.String())
			}
		case *ssa.Index:
			c.Obl("indices")
			n := linOf(flow.Len(x.Val(s, i.X)))
			k := at(i.Index)
			if !le(linInt(0), k) || !le(k.add(linInt(1), 1), n) {
				c.VP("index", i.Pos(), s.Path(), "an index may be out of bounds: %s", i.String())
			}
		case *ssa.Lookup:
			if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				c.Obl("indices")
				n := linOf(flow.Len(x.Val(s, i.X)))
				k := at(i.Index)
				if !le(linInt(0), k) || !le(k.add(linInt(1), 1), n) {
					c.VP("index", i.Pos(), s.Path(), "an index may be out of bounds: %s", i.String())
				}
			}
		case *ssa.MakeSlice:
			if !le(linInt(0), at(i.Len)) {
				c.VP("make", i.Pos(), s.Path(), "a list may be made with negative length")
			}
		case *ssa.TypeAssert:
			if !i.CommaOk && isTypeTest(s, x.Val(s, i.X), i.AssertedType) != 1 {
				c.VP("assertion", i.Pos(), s.Path(), "a type assertion may fail: %s", i.String())
			}
		case *ssa.BinOp:
			if i.Op == token.QUO || i.Op == token.REM {
				if _, ok := i.Y.(*ssa.Const); !ok && isIntT(i.Y.Type()) {
					c.VP("division", i.Pos(), s.Path(), "a division may be by zero")
				}
			}
		}
	}
	common := func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		switch ci.Name {
		case "strings.Repeat", "bytes.Repeat":
			c.Obl("repetitions")
			if !proves(s, nonNegative, linInt(0).add(linOf(ci.Args[1]), -1)) {
				c.VP("repeat", ci.Pos, s.Path(), "%s may be repeated a negative number of times: %s", ci.Args[0], ci.Args[1])
			}
			return one(s, flow.Sym("repeat", "", types.Typ[types.String], ci.Args...)), true
		case "builtin:min", "builtin:max":
			if len(ci.Args) == 2 {
				a, b := ci.Args[0], ci.Args[1]
				lo, hi := a, b
				if ci.Name == "builtin:max" {
					lo, hi = b, a
				}
				// a < b or not
				n := s.Clone()
				outs := []flow.Outcome{}
				if s.Assume(flow.Lt(a, b), true) {
					outs = append(outs, flow.Outcome{St: s, Res: lo})
				}
				if n.Assume(flow.Lt(a, b), false) {
					outs = append(outs, flow.Outcome{St: n, Res: hi})
				}
				return outs, true
			}
		case "builtin:panic":
			c.VP("panic", ci.Pos, s.Path(), "describing an error can panic")
		}
		if strings.HasSuffix(ci.Name, "template.Must") {
			c.VP("panic", ci.Pos, s.Path(), "describing an error can panic")
		}
		return nil, false
	}
	c.textExcerpt(text, bounds, common, intT)
	c.htmlExcerpt(html, bounds, common, intT)
	// the functions around them
	scope := c.P.pkg(mod).Types.Scope()
	rest := []*ssa.Function{c.fnc(mod, "ErrorResponse")}
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(tn.Type(), pretty) && !types.Implements(types.NewPointer(tn.Type()), pretty) {
			continue
		}
		for _, m := range []string{"Error", "PrettyPrint", "PrettyHTML"} {
			if f := c.P.method(mod, n, m); f != nil && len(f.Blocks) > 0 {
				rest = append(rest, f)
			}
		}
	}
	if f := c.P.method(mod, "ErrorLocation", "Annotate"); f != nil {
		rest = append(rest, f)
	}
	for _, f := range rest {
		c.Obl("descriptions")
		r := &flow.Rule{Instr: bounds, Keep: counts}
		r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
			if ci.Callee == text || ci.Callee == html {
				if ci.Callee == html {
					return one(s, x.OpaqueResult(s, ci)), true
				}
				return one(s, flow.Nil()), true
			}
			return common(x, s, ci)
		}
		args := []*flow.Term{}
		for _, p := range f.Params {
			args = append(args, flow.Sym("param", p.Name(), p.Type()))
		}
		c.run(r, f, args, nil)
	}
	// lengths
	for _, st := range c.fieldStores(locT, "Length") {
		c.Obl("lengths")
		if !nonNegValue(st.Instr.Val, 0) {
			c.V("length", st.Instr.Pos(), "a location may be made with a negative length")
		}
	}
	c.Need("descriptions", 4)
	c.Need("slices", 1)
	c.Need("repetitions", 1)
	c.Need("excerpts", 2)
	c.Need("lengths", 1)
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// nonNegValue reports whether a value is not negative by its form.
func nonNegValue(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil || v.Int64() >= 0
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			n := f.Pkg.Pkg.Path() + "." + f.Name()
			if n == "unicode/utf8.RuneCountInString" || n == "unicode/utf8.RuneCount" || n == "strings.Count" {
				return true
			}
			// a helper: all its results
			if len(f.Blocks) > 0 && strings.HasPrefix(f.Pkg.Pkg.Path(), mod) && f.Signature.Results().Len() == 1 {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !nonNegValue(r.Results[0], depth+1) {
						return false
					}
				}
				return true
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.QUO, token.REM:
			return nonNegValue(v.X, depth+1) && nonNegValue(v.Y, depth+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && !nonNegValue(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		// what callers pass
		f := v.Parent()
		for k, p := range f.Params {
			if p != v || f.Referrers() == nil && f.Signature.Recv() == nil {
				continue
			}
			return callersPass(f, k, depth)
		}
	case *ssa.Convert:
		return nonNegValue(v.X, depth+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				switch structOf(fa.X.Type()).Field(fa.Field).Name() {
				case "Length", "Line", "Col", "Offset":
					return true
				}
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al && !nonNegValue(st.Val, depth+1) {
						return false
					}
				}
				return true
			}
		}
	case *ssa.Field:
		switch structOf(v.X.Type()).Field(v.Field).Name() {
		case "Length", "Line", "Col", "Offset":
			return true
		}
	}
	return false
}

// callersPass reports whether all callers of f in its package pass a value which
// is not negative.
func callersPass(f *ssa.Function, k, depth int) bool {
	found := false
	for _, m := range f.Prog.AllPackages() {
		if !strings.HasPrefix(m.Pkg.Path(), mod) {
			continue
		}
		for fn := range pkgFuncs(m) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f {
						continue
					}
					found = true
					if !nonNegValue(ci.Common().Args[k], depth+1) {
						return false
					}
				}
			}
		}
	}
	return found
}

// pkgFuncs lists the functions and methods of a package with the closures in
// them.
func pkgFuncs(p *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// counter is the address of the number of lines read so far.
func counter(reader *flow.Term) *flow.Term {
	return flow.FieldAddr(reader, "lines read", types.Typ[types.Int])
}

// readLines models reading a file line by line: what is read is tagged with the
// number of the line.
func (c *C) readLines(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
	switch ci.Name {
	case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewScanner":
		res := x.OpaqueResult(s, ci)
		s.StoreTo(counter(res), flow.Int(0))
		return one(s, res), true
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine", "(*bufio.Scanner).Scan":
		if ci.Name == "(*bufio.Reader).ReadLine" {
			c.VP("partial", ci.Pos, s.Path(), "a long line is read in parts, so that the lines are miscounted")
		}
		if len(ci.Args) > 1 && !isInt(ci.Args[1], '\n') {
			return nil, false
		}
		c.Obl("reads")
		at := counter(ci.Args[0])
		n := flow.Add(s.Load(at, types.Typ[types.Int]), flow.Int(1))
		s.StoreTo(at, n)
		if ci.Name == "(*bufio.Scanner).Scan" {
			return one(s, flow.Sym("scan", "", types.Typ[types.Bool], n)), true
		}
		rs := ci.Callee.Signature.Results()
		parts := []*flow.Term{}
		for i := 0; i < rs.Len(); i++ {
			op := "readline"
			if i > 0 {
				op = "readerr"
			}
			parts = append(parts, flow.Sym(op, itoa(i), rs.At(i).Type(), n))
		}
		return one(s, flow.Sym("tuple", "", nil, parts...)), true
	case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
		return one(s, flow.Sym("readline", "", ci.Callee.Signature.Results().At(0).Type(), s.Load(counter(ci.Args[0]), types.Typ[types.Int]))), true
	}
	return nil, false
}

// readNumber is the number of the line a text was read from.
func readNumber(t *flow.Term) (lin, bool) {
	var n lin
	found := false
	t.Walk(func(u *flow.Term) {
		switch {
		case u.Op == "readline" && !found:
			n, found = linOf(u.Args[0]), true
		case u.Op == "elem" && !found && strings.HasPrefix(flow.CallName(u.Args[0]), "strings.Split"):
			n, found = linOf(u.Args[1]).add(linInt(1), 1), true
		}
	})
	return n, found
}

// isFileText reports whether a value is (part of) what was read from a file.
func isFileText(t *flow.Term) bool {
	return t.Has(func(u *flow.Term) bool {
		if u.Op == "readline" {
			return true
		}
		if u.Op != "result" || u.Str != "0" {
			return false
		}
		n := flow.CallName(u.Args[0])
		return n == "os.ReadFile" || strings.HasPrefix(n, "io.ReadAll")
	})
}

// errorWrite recognises the failure of an excerpt being printed in its place.
func isReadError(s *flow.State, t *flow.Term) bool {
	return t.Has(func(u *flow.Term) bool { return u.Typ != nil && isErrType(u.Typ) })
}

func (c *C) checkLine(x *flow.Exec, s *flow.State, pos token.Pos, shown *flow.Term, line *flow.Term) {
	n, ok := readNumber(shown)
	if !ok {
		c.Obl("lines not followed")
		return
	}
	c.Obl("lines")
	d := n.add(linOf(line), -1)
	if !provesLoops(x, s, nonNegative, d) || !provesLoops(x, s, nonNegative, linInt(0).add(d, -1)) {
		c.VP("line", pos, s.Path(), "the line shown is not known to be the location's: it is line %s of the file", n)
	}
	if w := altered(shown); w != "" {
		c.VP("altered", pos, s.Path(), "the line shown is not the one of the file: it went through %s, so that columns are not what they were", w)
	}
}

// altered is a function which the text of a file went through which may move or
// change what is on the line, empty if there is none.
func altered(t *flow.Term) string {
	found := ""
	t.Has(func(u *flow.Term) bool {
		if u.Op != "pure" && u.Op != "call" || len(u.Args) == 0 || !isFileText(u.Args[0]) {
			return false
		}
		n := flow.CallName(u)
		switch n {
		case "strings.TrimSpace", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.Trim",
			"strings.Replace", "strings.ReplaceAll", "strings.ToLower", "strings.ToUpper", "strings.Title", "strings.ToTitle",
			"bytes.TrimSpace", "bytes.TrimLeft", "bytes.TrimPrefix", "bytes.Trim", "bytes.ReplaceAll", "bytes.ToLower", "bytes.ToUpper",
			"strings.Fields", "bytes.Fields":
			if len(u.Args) > 2 {
				// one character for another leaves the columns
				old, ok1 := u.Args[1].IsStr()
				now, ok2 := u.Args[2].IsStr()
				if ok1 && ok2 && len(old) == 1 && len(now) == 1 {
					return false
				}
			}
			if len(u.Args) > 1 {
				// line breaks may go wherever they are
				if v, ok := u.Args[1].IsStr(); ok && strings.Trim(v, "\r\n") == "" {
					if len(u.Args) == 2 {
						return false
					}
					if w, ok := u.Args[2].IsStr(); ok && w == "" {
						return false
					}
				}
			}
			found = n
			return true
		case "strings.TrimRight", "bytes.TrimRight", "strings.TrimSuffix", "bytes.TrimSuffix":
			if v, ok := u.Args[1].IsStr(); ok && strings.TrimSpace(v) != "" {
				found = n
				return true
			}
		}
		return false
	})
	return found
}

// counts marks the variables loops count in.
func counts(t *flow.Term) bool { return t.Op == "loopphi" || t.Op == "mphi" }

type boundsHook func(*flow.Exec, *flow.State, ssa.Instruction)
type callHook func(*flow.Exec, *flow.State, *flow.CallInfo) ([]flow.Outcome, bool)

// writtenTo is the text a call writes to out, nil if it writes none.
func writtenTo(s *flow.State, ci *flow.CallInfo, out *flow.Term) *flow.Term {
	strT := types.Typ[types.String]
	if len(ci.Args) < 2 || unwrap(ci.Args[0]) != out {
		return nil
	}
	switch {
	case ci.Name == "io.WriteString" || strings.HasSuffix(ci.Name, ".WriteString"):
		return ci.Args[1]
	case strings.HasSuffix(ci.Name, ".Write"):
		if a := ci.Args[1]; a.Op == "conv" {
			return a.Args[0]
		}
		return ci.Args[1]
	case ci.Name == "fmt.Fprintf":
		if t := flow.Sprintf(ci.Args[1:]); t != nil {
			return t
		}
		return flow.Sym("pure", "fmt.Sprintf", strT, ci.Args[1:]...)
	case ci.Name == "fmt.Fprint" || ci.Name == "fmt.Fprintln":
		parts := []*flow.Term{}
		if ci.Args[1].Op == "cat" {
			for i, a := range ci.Args[1].Args {
				if a.Op != "one" {
					return flow.Sym("pure", "fmt.Sprint", strT, ci.Args[1:]...)
				}
				if i > 0 {
					parts = append(parts, flow.StrConst(" "))
				}
				parts = append(parts, unwrap(a.Args[0]))
			}
		}
		if ci.Name == "fmt.Fprintln" {
			parts = append(parts, flow.StrConst("\n"))
		}
		return flow.StrCat(parts...)
	}
	return nil
}

// visible is a constant text without terminal escape sequences.
func visible(s string) string {
	out := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		out.WriteByte(s[i])
	}
	return out.String()
}

func (c *C) textExcerpt(fn *ssa.Function, bounds boundsHook, common callHook, intT types.Type) {
	recv := flow.Sym("param", "loc", fn.Params[0].Type())
	out := flow.Sym("param", "out", fn.Params[1].Type())
	var line, col, length *flow.Term
	locLine := func(s *flow.State) {
		nl := fieldTypeOf(recv.Typ, "NodeLocation")
		node := get(s, recv, "NodeLocation", nl)
		line, col = get(s, node, "Line", intT), get(s, node, "Col", intT)
		length = get(s, recv, "Length", intT)
	}
	r := &flow.Rule{Instr: bounds, Keep: counts}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if t := writtenTo(s, ci, out); t != nil {
			at := counter(out)
			cur := s.Load(at, types.Typ[types.String])
			s.StoreTo(at, flow.StrCat(cur, t))
			if ci.Callee == nil || ci.Callee.Signature.Results().Len() > 1 {
				return one(s, x.OpaqueResult(s, ci)), true
			}
			return one(s, flow.Nil()), true
		}
		if outs, ok := c.readLines(x, s, ci); ok {
			return outs, true
		}
		if outs, ok := c.builder(x, s, ci); ok {
			return outs, true
		}
		return common(x, s, ci)
	}
	x, exits := c.run(r, fn, []*flow.Term{recv, out}, func(s *flow.State) {
		locLine(s)
		for _, t := range []*flow.Term{line, col, length} {
			s.Assume(flow.Lt(t, flow.Int(0)), false)
		}
		s.StoreTo(counter(out), flow.StrConst(""))
	})
	for _, e := range exits {
		s := e.St
		t := s.Load(counter(out), types.Typ[types.String])
		none := s.Decide(flow.Eq(line, flow.Int(0))) == 1
		if none {
			if t != flow.StrConst("") {
				c.VP("absent", e.Pos, s.Path(), "something is printed for an error without location: %s", t)
			}
			continue
		}
		c.Obl("excerpts")
		if !isFileText(t) && pastEnd(s) {
			continue
		}
		if !isFileText(t) {
			if t == flow.StrConst("") {
				c.VP("silent", e.Pos, s.Path(), "nothing is printed for a location")
			} else if !isReadError(s, t) {
				c.VP("silent", e.Pos, s.Path(), "no line is printed for a location: %s", t)
			}
			continue
		}
		if !proves(s, nonNegative, linInt(1).add(linOf(line), -1)) {
			c.VP("absent", e.Pos, s.Path(), "an excerpt is printed although there may be no location")
		}
		// lines of what is printed
		rows := [][]*flow.Term{nil}
		parts := []*flow.Term{t}
		if t.Op == "strcat" {
			parts = t.Args
		}
		for _, p := range parts {
			if v, ok := p.IsStr(); ok {
				for i, l := range strings.Split(visible(v), "\n") {
					if i > 0 {
						rows = append(rows, nil)
					}
					if l != "" {
						rows[len(rows)-1] = append(rows[len(rows)-1], flow.StrConst(l))
					}
				}
				continue
			}
			rows[len(rows)-1] = append(rows[len(rows)-1], p)
		}
		for i, row := range rows {
			pre := linInt(0)
			for j, p := range row {
				if !isFileText(p) {
					pre = pre.add(linOf(flow.Len(p)), 1)
					continue
				}
				c.checkLine(x, s, e.Pos, p, line)
				if j != len(row)-1 {
					break
				}
				c.Obl("excerpt lines")
				if i+1 >= len(rows) || len(rows[i+1]) == 0 {
					c.VP("marker", e.Pos, s.Path(), "no marker is printed below the line")
					break
				}
				pad, mark, odd := linInt(0), linInt(0), false
				for _, m := range rows[i+1] {
					ch, n := "", lin{}
					if v, ok := m.IsStr(); ok {
						ch, n = strings.TrimSpace(v), linInt(int64(len(v)))
					} else if m.Op == "repeat" {
						v, _ := m.Args[0].IsStr()
						odd = odd || len(v) != 1
						ch, n = strings.TrimSpace(v), linOf(m.Args[1])
					} else {
						odd = true
						continue
					}
					if ch == "" {
						pad = pad.add(n, 1)
					} else {
						mark = mark.add(n, 1)
					}
				}
				if odd {
					c.Obl("markers not followed")
					break
				}
				c.Obl("markers")
				want := pre.add(linOf(col), 1).add(linInt(1), -1)
				if !sameInt(s, nonNegative, pad, want) {
					c.VP("column", e.Pos, s.Path(), "the marker is not printed below the location's column")
				}
				if !sameInt(s, nonNegative, mark, linOf(length)) {
					c.VP("width", e.Pos, s.Path(), "the marker is not as long as the location")
				}
			}
		}
	}
}

// pastEnd reports whether the file was found to have no further line.
func pastEnd(s *flow.State) bool {
	for f, v := range s.Facts {
		if f.Op == "scan" && !v {
			return true
		}
	}
	return false
}

// isFileLine reports whether a value is a text read from a file, and not a part
// cut from it.
func isFileLine(t *flow.Term) bool {
	return isFileText(t) && !t.Has(func(u *flow.Term) bool { return u.Op == "slice" })
}

// cutOf follows slices of slices to what they are cut from.
func cutOf(t *flow.Term) (base *flow.Term, lo, hi lin) {
	if t.Op != "slice" {
		return nil, lo, hi
	}
	base, lo = t.Args[0], linOf(t.Args[1])
	if base.Op == "slice" {
		b, l, h := cutOf(base)
		lo = lo.add(l, 1)
		if t.Args[2].IsNil() {
			return b, lo, h
		}
		return b, lo, l.add(linOf(t.Args[2]), 1)
	}
	if t.Args[2].IsNil() {
		return base, lo, linOf(flow.Len(base))
	}
	return base, lo, linOf(t.Args[2])
}

func (c *C) htmlExcerpt(fn *ssa.Function, bounds boundsHook, common callHook, intT types.Type) {
	recv := flow.Sym("param", "loc", fn.Params[0].Type())
	out := flow.Sym("param", "out", fn.Params[1].Type())
	strT := types.Typ[types.String]
	var line, col, length *flow.Term
	r := &flow.Rule{Instr: bounds, Keep: counts}
	// cut is the part of the characters of a line a text is made of
	cut := func(t *flow.Term) (base *flow.Term, lo, hi lin) {
		t = unwrap(t)
		for t.Op == "conv" && t.Args[0].Op != "" && !isFileLine(t.Args[0]) {
			t = t.Args[0]
		}
		return cutOf(t)
	}
	runes := func(t *flow.Term) bool {
		sl, ok := t.Typ.Underlying().(*types.Slice)
		return ok && t.Op == "conv" && types.Identical(sl.Elem().Underlying(), types.Typ[types.Int32])
	}
	r.Call = func(x *flow.Exec, s *flow.State, ci *flow.CallInfo) ([]flow.Outcome, bool) {
		if outs, ok := c.readLines(x, s, ci); ok {
			return outs, true
		}
		if strings.HasSuffix(ci.Name, "template.Template).Execute") || strings.HasSuffix(ci.Name, "template.Template).ExecuteTemplate") {
			c.Obl("excerpts")
			s.AddSticky("shown")
			if unwrap(ci.Args[1]) != out {
				c.VP("output", ci.Pos, s.Path(), "the excerpt is written to %s", ci.Args[1])
			}
			if !proves(s, nonNegative, linInt(1).add(linOf(line), -1)) {
				c.VP("absent", ci.Pos, s.Path(), "an excerpt is rendered although there may be no location")
			}
			data := unwrap(ci.Args[len(ci.Args)-1])
			pre, mid, suf := get(s, data, "Prefix", strT), get(s, data, "Annotated", strT), get(s, data, "Suffix", strT)
			whole := pre
			b1, l1, h1 := cut(pre)
			b2, l2, h2 := cut(mid)
			b3, l3, h3 := cut(suf)
			empty := func(t *flow.Term) bool {
				v, ok := t.IsStr()
				return ok && v == "" || t.Op == "zero"
			}
			at := linOf(col).add(linInt(1), -1)
			to := at.add(linOf(length), 1)
			switch {
			case isFileText(pre) && b1 == nil && empty(mid) && empty(suf):
				// the whole line: only if the location is not in it
				var chars *flow.Term
				for f := range s.Facts {
					f.Walk(func(u *flow.Term) {
						if u.Op == "len" && u.Args[0].Op == "conv" && unwrap(u.Args[0].Args[0]) == pre && runes(u.Args[0]) {
							chars = u
						}
					})
				}
				if chars == nil {
					chars = flow.Len(flow.Sym("conv", "", types.NewSlice(types.Universe.Lookup("rune").Type()), pre))
				}
				if s.Decide(flow.Eq(pre, flow.StrConst(""))) == 1 {
					break
				}
				cs := constraints(s, nonNegative)
				in := []lin{linInt(0).add(at, -1), to.add(linOf(chars), -1)}
				cs = append(cs, in...)
				if !infeasible(cs, in[0].add(in[1], 3), nonNegative) {
					c.VP("unmarked", ci.Pos, s.Path(), "a location within its line may be shown without being marked")
				}
			case b1 != nil && b2 != nil && b3 != nil:
				whole = b1
				if b1 != b2 || b2 != b3 || !isFileText(b1) && !pastEnd(s) {
					c.VP("parts", ci.Pos, s.Path(), "the parts of the excerpt are not cut from one line")
					break
				}
				if !runes(b1) {
					c.VP("bytes", ci.Pos, s.Path(), "the line is cut at bytes, but columns count characters")
				}
				// where the location is in the line
				in := []lin{linInt(0).add(at, -1), to.add(linOf(flow.Len(b1)), -1)}
				same := func(a, b lin) bool { return sameIf(s, nonNegative, a, b, in...) }
				if !same(l1, linInt(0)) || !same(h1, at) || !same(l2, at) {
					c.VP("column", ci.Pos, s.Path(), "the part marked does not start at the location's column")
				}
				if !same(h2, to) || !same(l3, to) {
					c.VP("width", ci.Pos, s.Path(), "the part marked is not as long as the location")
				}
				if !same(h3, linOf(flow.Len(b3))) {
					c.VP("rest", ci.Pos, s.Path(), "the rest of the line is not shown")
				}
			default:
				c.Obl("excerpts not followed")
				whole = nil
				if !isFileText(pre) && !isFileText(mid) && !isFileText(suf) && s.Decide(get(s, data, "EOF", types.Typ[types.Bool])) != 1 {
					c.VP("line", ci.Pos, s.Path(), "the excerpt rendered has no line of the file")
				}
			}
			if whole != nil && isFileText(whole) {
				c.checkLine(x, s, ci.Pos, whole, line)
			}
			if !get(s, data, "Lineno", strT).Mentions(line) {
				c.VP("number", ci.Pos, s.Path(), "the excerpt does not have the location's line number")
			}
			return one(s, x.OpaqueResult(s, ci)), true
		}
		return common(x, s, ci)
	}
	_, exits := c.run(r, fn, []*flow.Term{recv, out}, func(s *flow.State) {
		node := get(s, recv, "NodeLocation", fieldTypeOf(recv.Typ, "NodeLocation"))
		line, col = get(s, node, "Line", intT), get(s, node, "Col", intT)
		length = get(s, recv, "Length", intT)
		for _, t := range []*flow.Term{line, col, length} {
			s.Assume(flow.Lt(t, flow.Int(0)), false)
		}
	})
	for _, e := range exits {
		s := e.St
		none := s.Decide(flow.Eq(line, flow.Int(0))) == 1
		if none && !(len(e.Res) == 1 && s.IsNil(e.Res[0]) == 1) {
			c.VP("absent", e.Pos, s.Path(), "rendering an error without location fails")
		}
		if !none && s.Count("shown") == 0 && len(e.Res) == 1 && s.IsNil(e.Res[0]) != 0 {
			c.VP("silent", e.Pos, s.Path(), "nothing is rendered for a location")
		}
	}
}
