package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is one loaded Go module.
type Program struct {
	Dir    string
	Prog   *ssa.Program
	Pkgs   []*packages.Package
	SPkgs  []*ssa.Package
	byPath map[string]*ssa.Package
	pkgs   map[string]*packages.Package
	fns    []*ssa.Function
	named  []types.Type
	impl   map[*types.Func][]*ssa.Function
	impure map[*ssa.Function]bool
	addrT  map[*ssa.Function]bool
}

// Load type-checks all packages of the module in dir (without tests) and builds SSA.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", dir, err)
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %s", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Pkgs: ps, SPkgs: sp, byPath: map[string]*ssa.Package{}, pkgs: map[string]*packages.Package{},
		impl: map[*types.Func][]*ssa.Function{}, impure: map[*ssa.Function]bool{}}
	for i, x := range ps {
		if sp[i] == nil {
			return nil, fmt.Errorf("package %s was not built", x.PkgPath)
		}
		p.byPath[x.PkgPath] = sp[i]
		p.pkgs[x.PkgPath] = x
		sc := x.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.named = append(p.named, nt)
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if isSource(fn) && p.InRepo(fn) {
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		if p.fns[i].Pos() != p.fns[j].Pos() {
			return p.fns[i].Pos() < p.fns[j].Pos()
		}
		return p.fns[i].String() < p.fns[j].String()
	})
	return p, nil
}

// InRepo reports whether fn's code belongs to the analysed module.
func (p *Program) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.byPath[fn.Pkg.Pkg.Path()] != nil
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.byPath[o.Pkg().Path()] != nil
	}
	return false
}

// Pkg returns the SSA package with the given path relative to the repository.
func (p *Program) Pkg(rel string) *ssa.Package { return p.byPath[repoPrefix+rel] }

// Callees resolves a call; interface method calls resolve to all methods of types declared in
// the module.
func (p *Program) Callees(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		if f := c.StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if r, ok := p.impl[c.Method]; ok {
		return r
	}
	var r []*ssa.Function
	if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
		for _, nt := range p.named {
			if types.IsInterface(nt) {
				continue
			}
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.Implements(t, it) {
					continue
				}
				sel := p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue
				}
				if f := p.Prog.MethodValue(sel); f != nil && isSource(f) {
					r = append(r, f)
				}
				break
			}
		}
	}
	p.impl[c.Method] = r
	return r
}

// AddrTaken returns the in-repo functions whose value is used other than being called.
func (p *Program) AddrTaken() map[*ssa.Function]bool {
	if p.addrT != nil {
		return p.addrT
	}
	p.addrT = map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == callee {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						p.addrT[f] = true
					}
				}
			}
		}
	}
	return p.addrT
}

// Impure reports whether two calls of fn with the same arguments and memory may give different
// results, or whether it has effects outside the memory tracked by the analysis.
func (p *Program) Impure(fn *ssa.Function) bool {
	if r, ok := p.impure[fn]; ok {
		return r
	}
	p.impure[fn] = false // recursion
	r := p.impure1(fn)
	p.impure[fn] = r
	return r
}

func (p *Program) impure1(fn *ssa.Function) bool {
	if !isSource(fn) {
		return !purePkgs[pkgOf(fn)] && !receiverOnly[pkgOf(fn)]
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() && c.Method.Name() == "Error" {
					continue
				}
				cs := p.Callees(c)
				if len(cs) == 0 {
					return true
				}
				for _, t := range cs {
					if p.Impure(t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// getter normalises calls of protobuf getters to field accesses.
func (p *Program) getter(callee *ssa.Function, args []*Expr) *Expr {
	if callee == nil || len(args) != 1 || callee.Signature.Recv() == nil || !strings.HasPrefix(callee.Name(), "Get") {
		return nil
	}
	rt := callee.Signature.Recv().Type()
	nt := named(rt)
	if nt == nil {
		return nil
	}
	if ms := types.NewMethodSet(rt); ms.Lookup(nil, "ProtoReflect") == nil && ms.Lookup(nil, "ProtoMessage") == nil {
		return nil
	}
	st := structType(rt)
	if st == nil {
		return nil
	}
	name := strings.TrimPrefix(callee.Name(), "Get")
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fieldOf(args[0], st.Field(i))
		}
	}
	if nt.Obj().Pkg() == nil {
		return nil
	}
	w := nt.Obj().Pkg().Scope().Lookup(nt.Obj().Name() + "_" + name)
	if w == nil {
		return nil
	}
	ws := structType(w.Type())
	if ws == nil || ws.NumFields() != 1 {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if it, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && types.Implements(types.NewPointer(w.Type()), it) {
			pt := types.NewPointer(w.Type())
			ta := &Expr{Op: "ta", S: typeName(pt), Args: []*Expr{fieldOf(args[0], st.Field(i))}, T: pt}
			return fieldOf(ta, ws.Field(0))
		}
	}
	return nil
}

// Func finds a function or method: "pkg.Name" or "(*pkg.T).Name" with pkg relative to the repository.
func (p *Program) Func(name string) *ssa.Function {
	for _, f := range p.fns {
		if f.Parent() == nil && fnName(f) == name && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// Type finds a named type of a package.
func (p *Program) Type(rel, name string) *types.Named {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds a method by receiver type and name.
func (p *Program) Method(t *types.Named, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if sel := p.Prog.MethodSets.MethodSet(x).Lookup(t.Obj().Pkg(), name); sel != nil {
			if f := p.Prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Program) pos(in ssa.Instruction) string {
	ps := in.Pos()
	if !ps.IsValid() {
		// nearest instruction with a position
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				ps = x.Pos()
			}
			if x == in && ps.IsValid() {
				break
			}
		}
	}
	if !ps.IsValid() {
		ps = in.Parent().Pos()
	}
	q := p.Prog.Fset.Position(ps)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

// Functions lists all functions of the module with source code.
func (p *Program) Functions() []*ssa.Function { return p.fns }

// InRepoPkg reports whether the package belongs to the repository (any module).
func (p *Program) InRepoPkg(pkg *types.Package) bool {
	return strings.HasPrefix(pkg.Path()+"/", repoPrefix)
}

// Implementations lists the module's concrete types that implement the interface: as values if
// their value methods suffice, as pointers otherwise.
func (p *Program) Implementations(it *types.Interface) []types.Type {
	var r []types.Type
	for _, nt := range p.named {
		if types.IsInterface(nt) {
			continue
		}
		if types.Implements(nt, it) || types.Implements(types.NewPointer(nt), it) {
			r = append(r, nt)
		}
	}
	return r
}
