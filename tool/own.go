package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership: where does the object come from that an instruction writes to? A write is traced backwards
// through loads, calls, returns, parameters and captured variables. The trace ends in objects made by the
// program (fresh), in deep copies, or in something that came from elsewhere (foreign).

type ownSel struct {
	name string // field path, or "[]" for an element
}

type ownTrace struct {
	e       *Engine
	callers map[*ssa.Function][]ssa.CallInstruction
	// watched reports whether objects of the type are to be traced
	watched func(types.Type) bool
	seen    map[string]bool
	foreign []string
	touched bool
	flow    map[*ssa.Function]*phiFlow
}

func newOwnTrace(e *Engine, watched func(types.Type) bool) *ownTrace {
	t := &ownTrace{e: e, watched: watched, callers: map[*ssa.Function][]ssa.CallInstruction{}, flow: map[*ssa.Function]*phiFlow{}}
	for _, f := range e.P.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range e.P.Callees(c.Common()) {
						t.callers[g] = append(t.callers[g], c)
					}
				}
			}
		}
	}
	return t
}

// ownWrite is an instruction that changes an object.
type ownWrite struct {
	in    ssa.Instruction
	base  ssa.Value // the object (pointer, map or slice)
	field string
	elem  bool
}

var sorters = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Ints": true, "sort.Strings": true}

func isSorter(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	n := f.RelString(nil)
	if i := strings.Index(n, "["); i >= 0 {
		n = n[:i]
	}
	return sorters[n] || n == "math/rand.Shuffle" || strings.HasPrefix(n, "slices.Sort") || n == "slices.Reverse" || n == "slices.Delete" || n == "slices.Insert" || n == "slices.Compact"
}

// ownWrites lists the instructions of a function that change objects.
func ownWrites(f *ssa.Function) []ownWrite {
	var ws []ownWrite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					ws = append(ws, ownWrite{in: in, base: x.Addr})
				}
			case *ssa.MapUpdate:
				ws = append(ws, ownWrite{in: in, base: x.Map, elem: true})
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "copy", "clear":
						ws = append(ws, ownWrite{in: in, base: c.Args[0], elem: true})
					case "append":
						// appending behind a shortened slice overwrites what followed
						v := c.Args[0]
						if s, ok := v.(*ssa.Slice); ok && s.High != nil && s.Max == nil {
							ws = append(ws, ownWrite{in: in, base: s.X, elem: true})
						} else if p, ok := v.(*ssa.Phi); ok {
							for _, s := range phiSlices(p, map[*ssa.Phi]bool{}) {
								ws = append(ws, ownWrite{in: in, base: s.X, elem: true})
							}
						}
					}
				} else if isSorter(c.StaticCallee()) && len(c.Args) > 0 {
					ws = append(ws, ownWrite{in: in, base: c.Args[0], elem: true})
				}
			}
		}
	}
	return ws
}

// phiSlices returns the shortened slices to which a loop appends.
func phiSlices(p *ssa.Phi, seen map[*ssa.Phi]bool) []*ssa.Slice {
	if seen[p] {
		return nil
	}
	seen[p] = true
	var r []*ssa.Slice
	for _, e := range p.Edges {
		switch x := e.(type) {
		case *ssa.Slice:
			if x.High != nil && x.Max == nil {
				r = append(r, x)
			}
		case *ssa.Phi:
			r = append(r, phiSlices(x, seen)...)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if q, ok := x.Call.Args[0].(*ssa.Phi); ok {
					r = append(r, phiSlices(q, seen)...)
				}
			}
		}
	}
	return r
}

// trace starts from a write and returns whether it concerns watched objects and where foreign ones come from.
func (t *ownTrace) trace(w ownWrite) (bool, []string) {
	t.seen, t.foreign, t.touched = map[string]bool{}, nil, false
	t.val(w.base, nil, w.in, nil)
	sort.Strings(t.foreign)
	return t.touched, t.foreign
}

func (t *ownTrace) touch(ty types.Type) {
	if t.watched(ty) {
		t.touched = true
	}
}

func pathText(path []ownSel) string {
	s := ""
	for i := len(path) - 1; i >= 0; i-- {
		if path[i].name == "[]" {
			s += "[]"
		} else {
			s += "." + path[i].name
		}
	}
	return s
}

func (t *ownTrace) end(v ssa.Value, path []ownSel, how string) {
	t.foreign = append(t.foreign, fmt.Sprintf("%s %s in %s%s", how, v.Name(), fnNameOf(v), pathText(path)))
}

func fnNameOf(v ssa.Value) string {
	if v.Parent() == nil {
		return "?"
	}
	return fnName(v.Parent())
}

func push(path []ownSel, n string) []ownSel {
	return append(append([]ownSel{}, path...), ownSel{n})
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// within selects a field: of its own if the field is a struct itself.
func within(t types.Type, path []ownSel, f string) []ownSel {
	if n := len(path); isStruct(t) && n > 0 && path[n-1].name != "[]" {
		p := append([]ownSel{}, path...)
		p[n-1] = ownSel{f + "." + p[n-1].name}
		return p
	}
	return push(path, f)
}

// fieldChain returns the innermost base of nested field addresses and the path of fields.
func fieldChain(a *ssa.FieldAddr) (ssa.Value, string) {
	st := derefType(a.X.Type()).Underlying().(*types.Struct)
	n := st.Field(a.Field).Name()
	if x, ok := a.X.(*ssa.FieldAddr); ok {
		b, p := fieldChain(x)
		return b, p + "." + n
	}
	return a.X, n
}

// val traces the object that v points to (or the map or slice v); path selects what in it is meant.
// binding maps parameters of a function that was entered through its result to the arguments.
func (t *ownTrace) val(v ssa.Value, path []ownSel, at ssa.Instruction, bind map[*ssa.Parameter]ssa.Value) {
	if len(path) > 7 {
		return
	}
	k := fmt.Sprintf("%p%s", v, pathText(path))
	if _, ok := v.(*ssa.Phi); ok {
		k += fmt.Sprintf("@%p", at)
	}
	if bind != nil {
		k += fmt.Sprintf("%p", bind)
	}
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.touch(v.Type())
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.MakeClosure, *ssa.MakeChan:
	case *ssa.Global:
		t.end(v, path, "global")
	case *ssa.Alloc:
		t.content(x, path, bind)
	case *ssa.MakeMap, *ssa.MakeSlice:
		t.content(v, path, bind)
	case *ssa.FieldAddr:
		t.touch(derefType(x.X.Type()))
		b, f := fieldChain(x)
		for y := x; ; {
			t.touch(derefType(y.X.Type()))
			z, ok := y.X.(*ssa.FieldAddr)
			if !ok {
				break
			}
			y = z
		}
		if len(path) == 0 {
			t.val(b, path, x, bind)
		} else {
			// the address of a field through which something is selected
			p := append([]ownSel{}, path...)
			if n := p[len(p)-1].name; n != "[]" {
				p[len(p)-1] = ownSel{f + "." + n}
			} else {
				p = append(p, ownSel{f})
			}
			t.val(b, p, x, bind)
		}
	case *ssa.IndexAddr:
		if len(path) > 0 && path[len(path)-1].name != "[]" {
			t.val(x.X, push(path, "[]"), x, bind)
		} else {
			t.val(x.X, path, x, bind)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			t.end(v, path, "received")
			return
		}
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			for y := a; ; {
				t.touch(derefType(y.X.Type()))
				z, ok := y.X.(*ssa.FieldAddr)
				if !ok {
					break
				}
				y = z
			}
			b, f := fieldChain(a)
			t.val(b, within(x.Type(), path, f), x, bind)
		case *ssa.IndexAddr:
			t.val(a.X, push(path, "[]"), x, bind)
		case *ssa.Alloc:
			if isStruct(x.Type()) {
				t.content(a, path, bind)
			} else {
				t.content(a, push(path, ""), bind)
			}
		default:
			if isStruct(x.Type()) {
				t.val(x.X, path, x, bind)
			} else {
				t.val(x.X, push(path, ""), x, bind)
			}
		}
	case *ssa.Field:
		t.touch(x.X.Type())
		st := x.X.Type().Underlying().(*types.Struct)
		t.val(x.X, within(x.Type(), path, st.Field(x.Field).Name()), x, bind)
	case *ssa.Index:
		t.val(x.X, push(path, "[]"), x, bind)
	case *ssa.Lookup:
		t.val(x.X, push(path, "[]"), x, bind)
	case *ssa.Slice:
		t.val(x.X, path, x, bind)
	case *ssa.MakeInterface:
		t.val(x.X, path, x, bind)
	case *ssa.ChangeInterface:
		t.val(x.X, path, x, bind)
	case *ssa.ChangeType:
		t.val(x.X, path, x, bind)
	case *ssa.TypeAssert:
		t.val(x.X, path, x, bind)
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			t.val(x.X, path, x, bind)
		}
	case *ssa.Phi:
		for _, o := range t.phis(x.Parent()).origins(x, at) {
			t.val(o, path, at, bind)
		}
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			t.call(y, x.Index, path, bind)
		case *ssa.Lookup:
			t.val(y.X, push(path, "[]"), y, bind)
		case *ssa.TypeAssert:
			t.val(y.X, path, y, bind)
		case *ssa.Next:
			if r, ok := y.Iter.(*ssa.Range); ok {
				t.val(r.X, push(path, "[]"), y, bind)
			}
		case *ssa.UnOp:
			t.end(v, path, "received")
		case *ssa.Select:
			t.end(v, path, "received")
		}
	case *ssa.Call:
		t.call(x, 0, path, bind)
	case *ssa.Parameter:
		if a, ok := bind[x]; ok {
			t.val(a, path, at, nil)
			return
		}
		f := x.Parent()
		cs := t.callers[f]
		if t.e.P.AddrTaken()[f] {
			t.end(v, path, "argument")
		}
		// without a caller the function does not run
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range cs {
				com := c.Common()
				args := com.Args
				if com.IsInvoke() {
					args = append([]ssa.Value{com.Value}, args...)
				}
				if i < len(args) {
					t.val(args[i], path, c, nil)
				}
			}
		}
	case *ssa.FreeVar:
		f := x.Parent()
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						t.val(mc.Bindings[i], path, mc, nil)
					}
				}
			}
		}
	default:
		t.end(v, path, "value")
	}
}

func (t *ownTrace) phis(f *ssa.Function) *phiFlow {
	if t.flow[f] == nil {
		t.flow[f] = newPhiFlow(f)
	}
	return t.flow[f]
}

// call traces the i-th result of a call.
func (t *ownTrace) call(c *ssa.Call, i int, path []ownSel, bind map[*ssa.Parameter]ssa.Value) {
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			if s, ok := c.Call.Args[0].(*ssa.Slice); !ok || s.Max == nil || len(path) > 0 {
				t.val(c.Call.Args[0], path, c, bind)
			}
			if len(path) > 0 && len(c.Call.Args) > 1 {
				t.val(c.Call.Args[1], path, c, bind)
			}
		}
		return
	}
	known := false
	for _, f := range t.e.P.Callees(&c.Call) {
		if len(f.Blocks) == 0 || !t.e.P.InRepo(f) {
			continue
		}
		known = true
		m := map[*ssa.Parameter]ssa.Value{}
		args := c.Call.Args
		if c.Call.IsInvoke() {
			args = append([]ssa.Value{c.Call.Value}, args...)
		}
		for j, p := range f.Params {
			if j < len(args) {
				a := args[j]
				if q, ok := a.(*ssa.Parameter); ok && bind[q] != nil {
					a = bind[q]
				}
				m[p] = a
			}
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				t.val(r.Results[i], path, r, m)
			}
		}
	}
	if !known {
		t.end(c, path, "result of "+calleeName(&c.Call))
	}
}

// content traces what path selects in an object that the function itself has made.
func (t *ownTrace) content(v ssa.Value, path []ownSel, bind map[*ssa.Parameter]ssa.Value) {
	if len(path) == 0 {
		return // the object itself: fresh
	}
	rest, top := path[:len(path)-1], path[len(path)-1].name
	var visit func(a ssa.Value, want string)
	visit = func(a ssa.Value, want string) {
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.X != a {
					continue
				}
				n := derefType(a.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
				if want == n {
					visit(x, "")
				} else if strings.HasPrefix(want, n+".") {
					visit(x, want[len(n)+1:])
				}
			case *ssa.IndexAddr:
				if x.X == a && want == "[]" {
					visit(x, "")
				}
			case *ssa.Slice:
				if x.X == a {
					visit(x, want)
				}
			case *ssa.Store:
				if x.Addr != a {
					continue
				}
				if want == "" || want == "[]" {
					t.val(x.Val, rest, x, bind)
				} else {
					t.val(x.Val, push(rest, want), x, bind)
				}
			case *ssa.MapUpdate:
				if x.Map == a && want == "[]" {
					t.val(x.Value, rest, x, bind)
				}
			}
		}
	}
	// a deep copy shares nothing
	for _, r := range *v.Referrers() {
		mi, ok := r.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		for _, r := range *mi.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok {
				f := c.Common().StaticCallee()
				if f != nil && (isGobClone(f) && c.Common().Args[1] == ssa.Value(mi) || f.RelString(nil) == "(*encoding/gob.Decoder).Decode") {
					return
				}
			}
		}
	}
	visit(v, top)
}

// phiFlow explores a function with the values of its boolean variables and the origins of its other
// variables, to know which origins a variable can have where it is used.
type phiFlow struct {
	fn     *ssa.Function
	states map[*ssa.BasicBlock][]map[*ssa.Phi]ssa.Value
	lost   bool
}

const maxPhiStates = 4000

func newPhiFlow(fn *ssa.Function) *phiFlow {
	p := &phiFlow{fn: fn, states: map[*ssa.BasicBlock][]map[*ssa.Phi]ssa.Value{}}
	tracked := func(ph *ssa.Phi) bool {
		switch u := ph.Type().Underlying().(type) {
		case *types.Basic:
			return u.Info()&types.IsBoolean != 0
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			return true
		}
		return false
	}
	type item struct {
		b   *ssa.BasicBlock
		env map[*ssa.Phi]ssa.Value
	}
	key := func(b *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value) string {
		var ks []string
		for k, v := range env {
			n := v.Name()
			if c, ok := v.(*ssa.Const); ok {
				n = c.String()
			}
			ks = append(ks, k.Name()+"="+n)
		}
		sort.Strings(ks)
		return fmt.Sprint(b.Index, ks)
	}
	seen := map[string]bool{}
	todo := []item{{fn.Blocks[0], map[*ssa.Phi]ssa.Value{}}}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := key(it.b, it.env)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > maxPhiStates {
			p.lost = true
			return p
		}
		p.states[it.b] = append(p.states[it.b], it.env)
		res := func(v ssa.Value) ssa.Value {
			if ph, ok := v.(*ssa.Phi); ok {
				if o, ok := it.env[ph]; ok {
					return o
				}
			}
			return v
		}
		succs := it.b.Succs
		if c, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
			if d, known := decide(c.Cond, res); known {
				if d {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			env := map[*ssa.Phi]ssa.Value{}
			for k, v := range it.env {
				env[k] = v
			}
			for i, pr := range s.Preds {
				if pr != it.b {
					continue
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(ph) {
						env[ph] = res(ph.Edges[i])
					}
				}
				break
			}
			todo = append(todo, item{s, env})
		}
	}
	return p
}

// decide evaluates a condition if the variables' values suffice.
func decide(c ssa.Value, res func(ssa.Value) ssa.Value) (val, known bool) {
	switch x := res(c).(type) {
	case *ssa.Const:
		if x.Value != nil && types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) {
			return x.Value.String() == "true", true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, k := decide(x.X, res)
			return !v, k
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false, false
		}
		a, b := res(x.X), res(x.Y)
		if c, ok := a.(*ssa.Const); ok && c.IsNil() {
			a, b = b, a
		}
		cb, ok := b.(*ssa.Const)
		if !ok || !cb.IsNil() {
			return false, false
		}
		switch y := a.(type) {
		case *ssa.Const:
			return (y.IsNil()) == (x.Op == token.EQL), true
		case *ssa.Alloc:
			return x.Op == token.NEQ, true
		case *ssa.Call:
			if f := y.Call.StaticCallee(); f != nil && returnsFresh(f) {
				return x.Op == token.NEQ, true
			}
		}
	}
	return false, false
}

// returnsFresh: the function returns nothing but addresses of its own objects.
func returnsFresh(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 {
				return false
			}
			if _, ok := r.Results[0].(*ssa.Alloc); !ok {
				return false
			}
			n++
		}
	}
	return n > 0
}

// origins returns the values that the variable may have at the instruction.
func (p *phiFlow) origins(ph *ssa.Phi, at ssa.Instruction) []ssa.Value {
	set := map[ssa.Value]bool{}
	if at != nil && at.Parent() == p.fn && !p.lost {
		for _, env := range p.states[at.Block()] {
			if o := env[ph]; o != nil {
				set[o] = true
			}
		}
	}
	if len(set) == 0 {
		seen := map[*ssa.Phi]bool{}
		var visit func(x *ssa.Phi)
		visit = func(x *ssa.Phi) {
			if seen[x] {
				return
			}
			seen[x] = true
			for _, e := range x.Edges {
				if q, ok := e.(*ssa.Phi); ok {
					visit(q)
				} else {
					set[e] = true
				}
			}
		}
		visit(ph)
	}
	var r []ssa.Value
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
