package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/flow"
)

const mod = "github.com/vito/booklit"

// Prog is the loaded program.
type Prog struct {
	Fset *token.FileSet
	Pkgs map[string]*packages.Package
	SSA  *ssa.Program
	Dir  string
	all  []*packages.Package

	liveFns map[*ssa.Function]bool
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Pkgs: map[string]*packages.Package{}, Dir: dir}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, pk.Errors[0])
		}
		p.Pkgs[pk.PkgPath] = pk
		p.Fset = pk.Fset
	}
	if p.Pkgs[mod] == nil || p.Pkgs[mod+"/ast"] == nil {
		return nil, fmt.Errorf("module packages not found in %s", dir)
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.all = pkgs
	return p, nil
}

// scope lists the non-test packages of the module.
func (p *Prog) scope() []*packages.Package {
	out := []*packages.Package{}
	for _, pk := range p.all {
		if strings.Contains(pk.PkgPath, "/tests") || strings.Contains(pk.PkgPath, "/docs/") {
			continue
		}
		out = append(out, pk)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].PkgPath < out[j].PkgPath })
	return out
}

func (p *Prog) pkg(path string) *packages.Package { return p.Pkgs[path] }

// named finds a named type.
func (p *Prog) named(pkg, name string) *types.Named {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) iface(pkg, name string) *types.Interface {
	n := p.named(pkg, name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// fn finds a package-level function.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	pk := p.SSA.ImportedPackage(pkg)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// method finds a method (value or pointer receiver).
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	n := p.named(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// funcsIn lists every source function (including closures) of a package.
func (p *Prog) funcsIn(pk *packages.Package) []*ssa.Function {
	out := []*ssa.Function{}
	sp := p.SSA.Package(pk.Types)
	if sp == nil {
		return nil
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || len(f.Blocks) == 0 {
			return
		}
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := types.Unalias(m.Type()).(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(p.SSA.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

type viol struct{ Key, Pos, Msg, Path string }

type abort struct{}

// C is the context of one check run.
type C struct {
	P          *Prog
	ID         string
	viol       []viol
	counts     map[string]int
	needs      []need
	samples    []string
	funcs      map[string]bool
	states     int
	mute       bool
	exits      []exitRec
	callees    map[*ssa.Function]map[*ssa.Function]bool
	calledOnly map[*ssa.Function]bool
}

// exitRec is one recorded normal exit of the analysed function.
type exitRec struct {
	St  *flow.State
	Res []*flow.Term
	Pos token.Pos
}

type need struct {
	name string
	min  int
}

// V reports a violation keyed by rule and construct.
func (c *C) V(key string, pos token.Pos, f string, a ...any) {
	if c.mute {
		return
	}
	c.viol = append(c.viol, viol{Key: strings.ReplaceAll(key, " ", "_"), Pos: c.P.pos(pos), Msg: fmt.Sprintf(f, a...)})
}

// VP reports a violation with a path.
func (c *C) VP(key string, pos token.Pos, path string, f string, a ...any) {
	if c.mute {
		return
	}
	c.viol = append(c.viol, viol{Key: strings.ReplaceAll(key, " ", "_"), Pos: c.P.pos(pos), Msg: fmt.Sprintf(f, a...), Path: path})
}

// Obl counts an obligation that was examined.
func (c *C) Obl(name string) {
	if !c.mute {
		c.counts[name]++
	}
}

// Sample notes an instance in the evidence.
func (c *C) Sample(f string, a ...any) {
	if c.mute {
		return
	}
	if len(c.samples) < 400 {
		c.samples = append(c.samples, fmt.Sprintf(f, a...))
	}
}

// Need requires a minimum number of rule instances (never vacuous).
func (c *C) Need(name string, min int) { c.needs = append(c.needs, need{name, min}) }

func (c *C) checkNeeds() {
	for _, n := range c.needs {
		if c.counts[n.name] < n.min {
			c.viol = append(c.viol, viol{Key: "vacuous:" + strings.ReplaceAll(n.name, " ", "_"), Pos: "-", Msg: fmt.Sprintf("only %d instances of %q were found (at least %d confirmed by hand): the rule lost its subject", c.counts[n.name], n.name, n.min)})
		}
	}
}

// Anchor resolves a required construct or fails the check.
func (c *C) Anchor(f *ssa.Function, what string) *ssa.Function {
	if f == nil || len(f.Blocks) == 0 {
		c.V("anchor:"+what, token.NoPos, "the construct %s this rule is about no longer exists", what)
		panic(abort{})
	}
	return f
}

func (c *C) fnc(pkg, name string) *ssa.Function {
	return c.Anchor(c.P.fn(pkg, name), short(pkg)+"."+name)
}

func (c *C) meth(pkg, typ, name string) *ssa.Function {
	return c.Anchor(c.P.method(pkg, typ, name), short(pkg)+"."+typ+"."+name)
}

func short(s string) string {
	s = strings.ReplaceAll(s, mod+"/", "")
	return strings.ReplaceAll(s, "github.com/vito/", "")
}

// exec makes an analysis run and accounts for it.
func (c *C) exec(r *flow.Rule) *flow.Exec {
	x := flow.NewExec(c.P.Fset, mod, r)
	x.Opaque = func(f *ssa.Function) bool {
		nested := f.Parent() != nil
		for f.Parent() != nil {
			f = f.Parent()
		}
		if nested && f.Signature.Recv() == nil && f.Name() != "init" {
			return false
		}
		return strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, ".peg.go")
	}
	x.OnPass = func(p int) {
		c.mute = p == 0
		c.exits = nil
	}
	return x
}

// done accounts for a finished run.
func (c *C) done(x *flow.Exec) {
	c.states += x.States
	if c.funcs == nil {
		c.funcs = map[string]bool{}
	}
	for f := range x.Funcs {
		c.funcs[short(f.String())] = true
	}
	for _, u := range x.Undec {
		c.V("undecided", token.NoPos, "undecided: %s", u)
	}
}

func (c *C) funcList() []string {
	out := []string{}
	for f := range c.funcs {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func (c *C) pkgNames() []string {
	out := []string{}
	if c.P == nil {
		return out
	}
	for _, p := range c.P.scope() {
		out = append(out, short(p.PkgPath))
	}
	return out
}

// contentTypes lists the module's content types: the receiver type as used in
// interfaces (T or *T).
func (p *Prog) contentTypes() []types.Type {
	ci := p.iface(mod, "Content")
	out := []types.Type{}
	sc := p.Pkgs[mod].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(t, ci) {
			out = append(out, t)
		} else if types.Implements(types.NewPointer(t), ci) {
			out = append(out, types.NewPointer(t))
		}
	}
	return out
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

var _ = ast.Print
