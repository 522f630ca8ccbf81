package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Backward slices: the values that a value is computed from, through calls, parameters, captured
// variables, fields (by type) and global variables of the program.

type slicer struct {
	e       *Engine
	callers map[*ssa.Function][]ssa.CallInstruction
	fields  map[slicedField][]ssa.Value
	globals map[*ssa.Global][]ssa.Value
}

type slicedField struct {
	t string
	i int
}

func newSlicer(e *Engine) *slicer {
	s := &slicer{e: e, callers: map[*ssa.Function][]ssa.CallInstruction{}, fields: map[slicedField][]ssa.Value{}, globals: map[*ssa.Global][]ssa.Value{}}
	for _, f := range e.P.Functions() {
		s.scan(f)
	}
	for _, p := range e.P.Prog.AllPackages() {
		if init := p.Func("init"); init != nil && e.P.InRepo(init) {
			s.scan(init)
		}
	}
	return s
}

func (s *slicer) scan(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				for _, g := range s.e.P.Callees(x.Common()) {
					s.callers[g] = append(s.callers[g], x)
				}
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					k := fieldKeyOf(a.X.Type(), a.Field)
					s.fields[k] = append(s.fields[k], x.Val)
				case *ssa.Global:
					s.globals[a] = append(s.globals[a], x.Val)
				}
			}
		}
	}
}

func fieldKeyOf(t types.Type, i int) slicedField {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return slicedField{types.TypeString(t, nil), i}
}

// from calls visit for all values that v is computed from, v included; where visit returns false the
// slice ends.
func (s *slicer) from(v ssa.Value, visit func(v ssa.Value) bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	var elems func(x ssa.Value)
	elems = func(x ssa.Value) {
		// what is stored into the elements of an array or slice, or handed over for being filled
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, q := range *y.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == y {
							walk(st.Val)
						}
					}
				case *ssa.FieldAddr:
					for _, q := range *y.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == y {
							walk(st.Val)
						}
					}
				case *ssa.Slice:
					if !seen[y] {
						walk(y)
						elems(y)
					}
				case *ssa.Store:
					if y.Addr == x {
						walk(y.Val)
					}
				case *ssa.Call:
					if y.Call.StaticCallee() == nil || !s.e.P.InRepo(y.Call.StaticCallee()) {
						walk(y)
					}
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !visit(v) {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y)
			}
		case *ssa.Alloc, *ssa.MakeSlice:
			elems(x)
		case *ssa.UnOp:
			walk(x.X)
			if x.Op == token.MUL {
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					for _, y := range s.fields[fieldKeyOf(a.X.Type(), a.Field)] {
						walk(y)
					}
				}
			}
		case *ssa.Global:
			for _, y := range s.globals[x] {
				walk(y)
			}
		case *ssa.Field:
			walk(x.X)
			for _, y := range s.fields[fieldKeyOf(x.X.Type(), x.Field)] {
				walk(y)
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && isSource(f) && s.e.P.InRepo(f) {
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > x.Index {
							walk(r.Results[x.Index])
						}
					}
					return
				}
			}
			walk(x.Tuple)
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && isSource(f) && s.e.P.InRepo(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, y := range r.Results {
							walk(y)
						}
					}
				}
				return
			}
			for _, y := range x.Call.Args {
				walk(y)
			}
			if x.Call.IsInvoke() {
				walk(x.Call.Value)
			}
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, c := range s.callers[x.Parent()] {
					args := c.Common().Args
					if c.Common().IsInvoke() {
						args = append([]ssa.Value{c.Common().Value}, args...)
					}
					if i < len(args) {
						walk(args[i])
					}
				}
			}
		case *ssa.FreeVar:
			f := x.Parent()
			for i, fv := range f.FreeVars {
				if fv != x {
					continue
				}
				if rs := f.Referrers(); rs != nil {
					for _, r := range *rs {
						if mc, ok := r.(*ssa.MakeClosure); ok {
							walk(mc.Bindings[i])
						}
					}
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				walk(*op)
			}
		}
	}
	walk(v)
}
