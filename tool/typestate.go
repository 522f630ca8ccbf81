package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Typestate: the states in which an object that exists once (a file and what is in memory of it, a lock) can be
// at an instruction, followed through all calls. Calls that may fail lead to different states depending on the
// error they return; which one holds is known once the error is compared with nil or handed on.

type tsOut struct {
	q   int
	err int // 1: returned an error, 0: did not, -1: not known
}

type tsTup struct {
	q   int
	v   ssa.Value // the error returned by the last call that may fail
	err int
}

type Typestate struct {
	e *Engine
	// step returns the states after an instruction, or nil if it has no effect of its own
	step func(in ssa.Instruction, q int) []tsOut
	// at is told about every state before an instruction
	at func(in ssa.Instruction, q int)
	// skip: functions that are not entered
	skip  func(f *ssa.Function) bool
	memo  map[*ssa.Function]map[int]map[tsOut]bool
	busy  map[*ssa.Function]map[int]bool
	again bool
	args  map[*ssa.Parameter][]*ssa.Function
	Fns   map[*ssa.Function]bool
}

func newTypestate(e *Engine) *Typestate {
	return &Typestate{e: e, memo: map[*ssa.Function]map[int]map[tsOut]bool{}, Fns: map[*ssa.Function]bool{}}
}

// Run returns the states in which the function returns.
func (t *Typestate) Run(f *ssa.Function, q int) map[tsOut]bool {
	for i := 0; i < 12; i++ {
		t.again = false
		t.busy = map[*ssa.Function]map[int]bool{}
		t.fn(f, q)
		if !t.again {
			break
		}
	}
	return t.memo[f][q]
}

func (t *Typestate) fn(f *ssa.Function, q int) map[tsOut]bool {
	if t.memo[f] == nil {
		t.memo[f] = map[int]map[tsOut]bool{}
	}
	if t.memo[f][q] == nil {
		t.memo[f][q] = map[tsOut]bool{}
	}
	if t.busy[f] == nil {
		t.busy[f] = map[int]bool{}
	}
	r := t.memo[f][q]
	if t.busy[f][q] {
		return r
	}
	t.busy[f][q] = true
	t.Fns[f] = true
	in := map[*ssa.BasicBlock]map[tsTup]bool{}
	var work []*ssa.BasicBlock
	push := func(b *ssa.BasicBlock, x tsTup) {
		if in[b] == nil {
			in[b] = map[tsTup]bool{}
		}
		if !in[b][x] {
			in[b][x] = true
			work = append(work, b)
		}
	}
	push(f.Blocks[0], tsTup{q: q, err: -1})
	done := map[*ssa.BasicBlock]map[tsTup]bool{}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if done[b] == nil {
			done[b] = map[tsTup]bool{}
		}
		for x := range in[b] {
			if done[b][x] {
				continue
			}
			done[b][x] = true
			cur := map[tsTup]bool{x: true}
			for _, i := range b.Instrs {
				cur = t.instr(i, cur)
			}
			switch l := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				for y := range cur {
					o := tsOut{q: y.q, err: t.returned(l, y)}
					if !r[o] {
						r[o] = true
						t.again = true
					}
				}
			case *ssa.If:
				for y := range cur {
					for k, s := range b.Succs {
						if tsFeasible(l.Cond, k == 0, y) {
							push(s, tsEdge(b, s, y))
						}
					}
				}
			default:
				for y := range cur {
					for _, s := range b.Succs {
						push(s, tsEdge(b, s, y))
					}
				}
			}
		}
	}
	return r
}

// tsEdge: on the way to the next block the error may get the name of a phi.
func tsEdge(b, s *ssa.BasicBlock, x tsTup) tsTup {
	if x.v == nil {
		return x
	}
	for _, i := range s.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range s.Preds {
			if pr == b && p.Edges[k] == x.v {
				x.v = p
				return x
			}
			if pr == b && x.v == p {
				x.v, x.err = nil, -1
				return x
			}
		}
	}
	return x
}

// tsNilTest: the condition compares v with nil; the result says whether it holds if v is nil.
func tsNilTest(cond ssa.Value) (ssa.Value, bool, bool) {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			v, eq, ok := tsNilTest(c.X)
			return v, !eq, ok
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return nil, false, false
		}
		x, y := c.X, c.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); ok && k.IsNil() {
			return x, c.Op == token.EQL, true
		}
	}
	return nil, false, false
}

func tsFeasible(cond ssa.Value, truth bool, x tsTup) bool {
	if x.v == nil || x.err < 0 {
		return true
	}
	v, eq, ok := tsNilTest(cond)
	if !ok || v != x.v {
		return true
	}
	isNil := eq == truth
	return isNil == (x.err == 0)
}

func (t *Typestate) returned(r *ssa.Return, x tsTup) int {
	if len(r.Results) == 0 {
		return 0
	}
	v := returnedVal(r)
	if !isErrorType(v.Type()) {
		return 0
	}
	if v == x.v {
		return x.err
	}
	if k, ok := v.(*ssa.Const); ok && k.IsNil() {
		return 0
	}
	if failedReturn(r) {
		return 1
	}
	// errors made from the one at hand
	if c, ok := v.(*ssa.Call); ok && x.v != nil {
		for _, a := range c.Call.Args {
			if a == x.v && (x.err == 1 || c.Call.StaticCallee() != nil && c.Call.StaticCallee().Pkg != nil && c.Call.StaticCallee().Pkg.Pkg.Path() == "github.com/pkg/errors") {
				return x.err
			}
		}
	}
	return -1
}

// errOf returns the value of the error returned by a call, if it is used.
func errOf(c *ssa.Call) ssa.Value {
	sig := c.Call.Signature()
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return c
	}
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == n-1 {
			return x
		}
	}
	return nil
}

func (t *Typestate) instr(in ssa.Instruction, cur map[tsTup]bool) map[tsTup]bool {
	switch x := in.(type) {
	case *ssa.RunDefers:
		for _, d := range defersOf(in.Parent()) {
			next := map[tsTup]bool{}
			if !d.Block().Dominates(in.Block()) {
				for y := range cur {
					next[y] = true
				}
			}
			for y := range cur {
				for _, o := range t.callOuts(d, y.q) {
					z := y
					z.q = o.q
					next[z] = true
				}
			}
			cur = next
		}
		return cur
	case *ssa.Defer:
		return cur
	case *ssa.Go:
		return cur
	case ssa.CallInstruction:
		next := map[tsTup]bool{}
		var ev ssa.Value
		if c, ok := x.(*ssa.Call); ok {
			ev = errOf(c)
		}
		for y := range cur {
			if t.at != nil {
				t.at(in, y.q)
			}
			outs := t.callOuts(x, y.q)
			effect := false
			for _, o := range outs {
				if o.q != y.q || o.err >= 0 && ev != nil {
					effect = true
				}
			}
			if !effect && len(outs) > 0 {
				if y.v != nil && ev == y.v {
					y.v, y.err = nil, -1
				}
				next[y] = true
				continue
			}
			for _, o := range outs {
				z := tsTup{q: o.q, v: y.v, err: y.err}
				if ev != nil {
					z.v, z.err = ev, o.err
				}
				next[z] = true
			}
		}
		return next
	default:
		next := map[tsTup]bool{}
		for y := range cur {
			if t.at != nil {
				t.at(in, y.q)
			}
			// a new round of a loop
			if v, ok := in.(ssa.Value); ok && v == y.v {
				if _, ok := in.(*ssa.Extract); !ok {
					if _, ok := in.(*ssa.Phi); !ok {
						y.v, y.err = nil, -1
					}
				}
			}
			if outs := t.step(in, y.q); outs != nil {
				for _, o := range outs {
					z := y
					z.q = o.q
					next[z] = true
				}
			} else {
				next[y] = true
			}
		}
		return next
	}
}

func defersOf(f *ssa.Function) []*ssa.Defer {
	var r []*ssa.Defer
	for i := len(f.Blocks) - 1; i >= 0; i-- {
		ins := f.Blocks[i].Instrs
		for j := len(ins) - 1; j >= 0; j-- {
			if d, ok := ins[j].(*ssa.Defer); ok {
				r = append(r, d)
			}
		}
	}
	return r
}

// callOuts: the states after a call.
func (t *Typestate) callOuts(c ssa.CallInstruction, q int) []tsOut {
	if outs := t.step(c, q); outs != nil {
		return outs
	}
	com := c.Common()
	set := map[tsOut]bool{}
	enter := func(f *ssa.Function) bool {
		if !isSource(f) || !t.e.P.InRepo(f) || isBinding(f) || t.skip != nil && t.skip(f) {
			return false
		}
		for o := range t.fn(f, q) {
			set[o] = true
		}
		return true
	}
	known := true
	callees := t.e.P.Callees(com)
	for _, f := range callees {
		if !enter(f) {
			known = false
		}
	}
	if len(callees) == 0 {
		known = false
		if f := closureFn(com.Value); f != nil && !com.IsInvoke() {
			known = enter(f)
		} else if p, ok := com.Value.(*ssa.Parameter); ok && !com.IsInvoke() {
			known = true
			for _, g := range t.passed(p) {
				if g == nil || !enter(g) {
					known = false
				}
			}
		}
	}
	if !known {
		set[tsOut{q, -1}] = true
		// functions handed over may be called
		for _, a := range com.Args {
			if f := closureFn(a); f != nil && enter(f) {
				// called before it returns, at some time later, or not at all
				for o := range set {
					if o.err >= 0 {
						delete(set, o)
						set[tsOut{o.q, -1}] = true
					}
				}
			}
		}
	}
	var r []tsOut
	for o := range set {
		r = append(r, o)
	}
	return r
}

// passed returns the functions that are passed as the parameter; nil stands for unknown ones.
func (t *Typestate) passed(p *ssa.Parameter) []*ssa.Function {
	if t.args == nil {
		t.args = map[*ssa.Parameter][]*ssa.Function{}
		for _, f := range t.e.P.Functions() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().IsInvoke() {
						continue
					}
					g := ci.Common().StaticCallee()
					if g == nil {
						continue
					}
					for i, a := range ci.Common().Args {
						if _, ok := a.Type().Underlying().(*types.Signature); ok && i < len(g.Params) {
							t.args[g.Params[i]] = append(t.args[g.Params[i]], closureFn(a))
						}
					}
				}
			}
		}
	}
	return t.args[p]
}
