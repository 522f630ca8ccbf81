package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Write is a (possible) modification of non-local memory.
type Write struct {
	Obj  types.Object // field or global; nil for a write through a bare pointer
	Base *Expr        // the written location (for fields: the object containing the field)
	Elem bool         // an element of the map/slice stored in the field
}

func (w *Write) key() string {
	n := "*"
	if w.Obj != nil {
		n = w.Obj.Name()
	}
	return fmt.Sprintf("%s.%s:%t", w.Base.Key(), n, w.Elem)
}

func (w *Write) String() string { return w.key() }

type deferred struct {
	call *ssa.CallCommon
	in   ssa.Instruction
	args []*Expr
	fn   *Expr
}

type callRes struct {
	ce     *Expr
	callee *ssa.Function
	outs   []*Outcome // substituted
}

// State is the abstract state on one (merged) path.
type State struct {
	vals    map[ssa.Value]*Expr
	env     map[string]*Expr
	facts   *Facts
	cond    map[string]*callRes
	written map[string]*Write
	defers  []*deferred
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, vals: make(map[ssa.Value]*Expr, len(s.vals)+4), env: make(map[string]*Expr, len(s.env)),
		cond: make(map[string]*callRes, len(s.cond)), written: make(map[string]*Write, len(s.written)), defers: s.defers[:len(s.defers):len(s.defers)]}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cond {
		n.cond[k] = v
	}
	for k, v := range s.written {
		n.written[k] = v
	}
	return n
}

// Outcome describes one class of returns of a function.
type Outcome struct {
	Results []*Expr
	Facts   *Facts
	In      ssa.Instruction
	Written map[string]*Write
}

// Site is a program point of interest together with what is known when it is reached.
type Site struct {
	Kind   string // call store mapupdate delete send go defer return panic recv
	In     ssa.Instruction
	Fn     *ssa.Function
	Callee *ssa.Function // static in-repo or external callee
	Name   string        // callee name
	Target *Expr         // address of store / map / channel
	W      *Write
	Args   []*Expr // args, stored value(s), results
	FnExpr *Expr   // called function value
	Res    *Expr   // call result
	Alts   []*Alt
	Async  bool
}

// Alt is what is known at a site on one group of paths.
type Alt struct {
	Facts   *Facts
	Written map[string]*Write
	Args    []*Expr
	Target  *Expr
	FnExpr  *Expr
	W       *Write
	Res     *Expr
}

// Summary is the result of analysing a function.
type Summary struct {
	Fn     *ssa.Function
	Sites  []*Site
	Outs   []*Outcome
	Writes map[string]*Write
	Loops  []*Loop
}

// Loop tells how the values that a loop carries change.
type Loop struct {
	Head  *ssa.BasicBlock
	Body  map[*ssa.BasicBlock]bool
	Edges []*LoopEdge
}

// LoopEdge is a way to enter the loop or to begin its next iteration.
type LoopEdge struct {
	Back  bool
	Facts *Facts
	Vals  map[string]*Expr // value in the next iteration, by the key of its expression
}

const maxStates = 24
const maxOuts = 24

type Engine struct {
	P       *Program
	sums    map[*ssa.Function]*Summary
	inProg  map[*ssa.Function]bool
	reads   map[*ssa.Function]map[types.Object]bool
	nFns    int
	walks   map[*ssa.Function]*walked
	uses    map[*ssa.Function]int
	busyErr map[*ssa.Function]bool
	specs   map[*ssa.Function]map[string]*Summary
	calls   map[*ssa.Function]map[int]bool
	cutOff  int // recursive calls that were cut off

	// Opaque: functions whose calls are left as they are
	Opaque map[*ssa.Function]bool

	unstable []string // functions whose analysis did not reach a fixpoint
}

func NewEngine(p *Program) *Engine {
	return &Engine{P: p, sums: map[*ssa.Function]*Summary{}, inProg: map[*ssa.Function]bool{}, reads: map[*ssa.Function]map[types.Object]bool{}}
}

func isSource(fn *ssa.Function) bool { return fn != nil && len(fn.Blocks) > 0 && !isBinding(fn) }

var bindings sync.Map

// isBinding: the function is part of the generated binding of the contracts, which is taken for
// what it is named after. Only iterators change what is passed to them.
func isBinding(fn *ssa.Function) bool {
	if fn == nil || pkgOf(fn) != repoPrefix+contractPkg || fn.Prog == nil {
		return false
	}
	if v, ok := bindings.Load(fn); ok {
		return v.(bool)
	}
	r := strings.HasSuffix(fn.Prog.Fset.Position(fn.Pos()).Filename, "/contract/binding.go")
	bindings.Store(fn, r)
	return r
}

// Summary analyses fn (memoised).
func (e *Engine) Summary(fn *ssa.Function) *Summary {
	if s, ok := e.sums[fn]; ok {
		return s
	}
	if e.inProg[fn] {
		e.cutOff++
		return nil
	}
	e.inProg[fn] = true
	a := &analysis{e: e, fn: fn, sum: &Summary{Fn: fn, Writes: map[string]*Write{}}}
	a.run()
	delete(e.inProg, fn)
	e.sums[fn] = a.sum
	e.nFns++
	return a.sum
}

// summaryFor analyses fn for a call with the given arguments: functions that are passed to it are
// known within it, and so are the types of values it gets as interfaces.
func (e *Engine) summaryFor(fn *ssa.Function, args []*Expr, fes ...*Expr) *Summary {
	spec := map[int]*Expr{}
	key := ""
	for i := range e.callable(fn) {
		if i < 0 {
			// a captured function
			if j := -i - 1; len(fes) > 0 && fes[0] != nil && fes[0].Op == "closure" && j < len(fes[0].Args) {
				switch x := fes[0].Args[j]; {
				case x.Op == "func" && x.Fn != nil:
					spec[i] = x
				case x.Op == "closure":
					n := &Expr{Op: "closure", S: x.S, Fn: x.Fn, T: x.T}
					for k, b := range x.Args {
						n.Args = append(n.Args, &Expr{Op: "free", S: fmt.Sprintf("$f%df%d", j, k), T: b.T})
					}
					spec[i] = n
				}
			}
			continue
		}
		if i >= len(args) {
			continue
		}
		x := args[i]
		switch {
		case x.Op == "func" && x.Fn != nil:
			spec[i] = x
		case x.Op == "closure":
			n := &Expr{Op: "closure", S: x.S, Fn: x.Fn, T: x.T}
			for j, b := range x.Args {
				n.Args = append(n.Args, &Expr{Op: "free", S: fmt.Sprintf("$%df%d", i, j), T: b.T})
			}
			spec[i] = n
		case x.T != nil && types.IsInterface(fn.Params[i].Type()) && !types.IsInterface(x.T) && named(x.T) != nil:
			spec[i] = &Expr{Op: "param", S: fmt.Sprintf("$%d", i), T: x.T}
		}
	}
	if len(spec) == 0 {
		return e.Summary(fn)
	}
	for i := -len(fn.FreeVars); i < len(fn.Params); i++ {
		if x := spec[i]; x != nil {
			key += fmt.Sprintf("%d:%s:%s;", i, x.Key(), types.TypeString(x.T, nil))
		}
	}
	if s, ok := e.specs[fn][key]; ok {
		return s
	}
	if e.inProg[fn] {
		e.cutOff++
		return nil
	}
	e.inProg[fn] = true
	a := &analysis{e: e, fn: fn, sum: &Summary{Fn: fn, Writes: map[string]*Write{}}, spec: spec}
	a.run()
	delete(e.inProg, fn)
	if e.specs == nil {
		e.specs = map[*ssa.Function]map[string]*Summary{}
	}
	if e.specs[fn] == nil {
		e.specs[fn] = map[string]*Summary{}
	}
	e.specs[fn][key] = a.sum
	e.nFns++
	return a.sum
}

// callable returns the parameters that fn (or an in-repo function it passes them to) calls, or calls
// methods of.
func (e *Engine) callable(fn *ssa.Function) map[int]bool {
	if r, ok := e.calls[fn]; ok {
		return r
	}
	if e.calls == nil {
		e.calls = map[*ssa.Function]map[int]bool{}
	}
	r := map[int]bool{}
	e.calls[fn] = r
	idx := map[ssa.Value]int{}
	for i, p := range fn.Params {
		t := p.Type().Underlying()
		if it, ok := t.(*types.Interface); ok {
			if n := named(p.Type()); n != nil && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path()+"/", repoPrefix)) || it.NumMethods() == 0 {
				continue
			}
		} else if _, ok := t.(*types.Signature); !ok {
			continue
		}
		idx[p] = i
	}
	for i, p := range fn.FreeVars {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			idx[p] = -i - 1
		}
	}
	if len(idx) == 0 {
		return r
	}
	// variables that hold parameters, and loads of them
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					i, ok := idx[x.Val]
					if _, is := x.Addr.(*ssa.Alloc); ok && is {
						if _, known := idx[x.Addr]; !known {
							idx[x.Addr] = i
							again = true
						}
					}
				case *ssa.UnOp:
					if i, ok := idx[x.X]; ok && x.Op == token.MUL {
						if _, known := idx[x]; !known {
							idx[x] = i
							again = true
						}
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for j, v := range mc.Bindings {
					if i, ok := idx[v]; ok && e.callable(mc.Fn.(*ssa.Function))[-j-1] {
						r[i] = true
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if i, ok := idx[c.Value]; ok {
				r[i] = true
			}
			if f := c.StaticCallee(); f != nil && isSource(f) && e.P.InRepo(f) {
				for j, v := range c.Args {
					if i, ok := idx[v]; ok && e.callable(f)[j] {
						r[i] = true
					}
				}
			}
		}
	}
	return r
}

// dynamic resolves a method call on a value whose type is known.
func (p *Program) dynamic(x *Expr, c *ssa.CallCommon) (*ssa.Function, *Expr) {
	if x == nil || x.T == nil || types.IsInterface(x.T) || named(x.T) == nil {
		return nil, nil
	}
	switch x.Op {
	case "nil", "zero", "const":
		return nil, nil
	}
	sel := p.Prog.MethodSets.MethodSet(x.T).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil || len(sel.Index()) != 1 {
		return nil, nil
	}
	f := p.Prog.FuncValue(sel.Obj().(*types.Func))
	if f == nil || !isSource(f) || !p.InRepo(f) {
		return nil, nil
	}
	_, isPtr := x.T.Underlying().(*types.Pointer)
	_, wantPtr := f.Params[0].Type().Underlying().(*types.Pointer)
	if isPtr && !wantPtr && x.Op == "alloc" && len(x.Fields) > 0 {
		x = &Expr{Op: "struct", Fields: x.Fields, T: derefType(x.T)}
	}
	return f, x
}

type edge struct{ from, to int }

type analysis struct {
	e        *Engine
	fn       *ssa.Function
	sum      *Summary
	header   map[*ssa.BasicBlock]bool
	backs    map[edge]bool
	bodies   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	es       map[edge][]*State
	headSt   map[*ssa.BasicBlock]*State
	entSig   map[*ssa.BasicBlock]string
	iterSig  map[*ssa.BasicBlock]string
	keepSig  map[*ssa.BasicBlock]string
	curBlock *ssa.BasicBlock
	esOld    map[edge][]*State // of back edges, before the block was analysed again
	pass     int
	sites    map[ssa.Instruction]*Site
	final    bool
	cur      ssa.Instruction
	changed  bool

	condWrites bool     // writes are recorded in lastW only
	lastW      []*Write // writes of the call being applied
	blkW       map[*ssa.BasicBlock]map[string]*Write
	spec       map[int]*Expr
	forks      []*State // further states after the current instruction
}

func (a *analysis) run() {
	fn := a.fn
	if len(fn.Blocks) == 0 {
		return
	}
	a.header = map[*ssa.BasicBlock]bool{}
	a.backs = map[edge]bool{}
	a.bodies = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				a.header[s] = true
				a.backs[edge{b.Index, s.Index}] = true
				body := a.bodies[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					a.bodies[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	order := rpo(fn)
	a.es = map[edge][]*State{}
	a.esOld = map[edge][]*State{}
	a.headSt = map[*ssa.BasicBlock]*State{}
	a.entSig = map[*ssa.BasicBlock]string{}
	a.iterSig = map[*ssa.BasicBlock]string{}
	a.keepSig = map[*ssa.BasicBlock]string{}
	for pass := 0; pass < 40; pass++ {
		a.changed = false
		a.pass = pass
		a.sites = map[ssa.Instruction]*Site{}
		a.sum.Sites = nil
		a.sum.Outs = nil
		a.sum.Writes = map[string]*Write{}
		for _, b := range order {
			a.block(b)
		}
		if !a.changed {
			break
		}
		if pass == 39 {
			a.e.unstable = append(a.e.unstable, fnName(fn))
		}
	}
	a.loops()
	a.mergeOuts()
}

func (a *analysis) loops() {
	for _, h := range a.fn.Blocks {
		hs := a.headSt[h]
		if !a.header[h] || hs == nil {
			continue
		}
		l := &Loop{Head: h, Body: a.bodies[h]}
		for pi, p := range h.Preds {
			k := edge{p.Index, h.Index}
			for _, s := range a.es[k] {
				le := &LoopEdge{Back: a.backs[k], Facts: s.facts, Vals: map[string]*Expr{}}
				for _, in := range h.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					le.Vals[a.phiExpr(phi).Key()] = a.val(s, phi.Edges[pi])
				}
				for c, x := range hs.env {
					if x.Op == "opaque" {
						if v := s.env[c]; v != nil {
							le.Vals[x.Key()] = v
						}
					}
				}
				l.Edges = append(l.Edges, le)
			}
		}
		a.sum.Loops = append(a.sum.Loops, l)
	}
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		// the recover block is only reached after a recovered panic; it is not analysed
		_ = fn
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (a *analysis) entry() *State {
	s := &State{vals: map[ssa.Value]*Expr{}, env: map[string]*Expr{}, facts: noFacts, cond: map[string]*callRes{}, written: map[string]*Write{}}
	return s
}

func paramExpr(p *ssa.Parameter, i int) *Expr {
	return &Expr{Op: "param", S: fmt.Sprintf("$%d", i), Obj: p.Object(), T: p.Type()}
}

// mergeStates merges states into one (facts are intersected).
func (a *analysis) mergeStates(b *ssa.BasicBlock, ss []*State) *State {
	r := ss[0].clone()
	for _, s := range ss[1:] {
		// values that differ in the same way stay the same value
		names := map[string]*Expr{}
		var diff []ssa.Value
		for v, x := range r.vals {
			if y, ok := s.vals[v]; !ok {
				delete(r.vals, v)
			} else if x.Key() != y.Key() {
				diff = append(diff, v)
			}
		}
		sort.Slice(diff, func(i, j int) bool {
			x, y := diff[i].Name(), diff[j].Name()
			return len(x) < len(y) || len(x) == len(y) && x < y
		})
		for _, v := range diff {
			x, y := r.vals[v], s.vals[v]
			k := x.Key() + "|" + y.Key()
			if names[k] == nil {
				names[k] = a.opaque(b, "m"+v.Name(), v.Type())
			}
		}
		r.facts = generalize(r.facts, s.facts, names)
		for _, v := range diff {
			x, y := r.vals[v], s.vals[v]
			if g := antiUnify(x, y, names, false); g != nil {
				r.vals[v] = g
				continue
			}
			r.vals[v] = names[x.Key()+"|"+y.Key()]
		}
		for k, x := range r.env {
			y, ok := s.env[k]
			if !ok {
				// the other side only knows a parent
				r.env[k] = a.opaque(b, "e"+k, x.T)
			} else if x.Key() != y.Key() {
				r.env[k] = a.opaque(b, "e"+k, x.T)
			} else if x.Op == "alloc" || x.Op == "struct" {
				_ = y
			}
		}
		for k, y := range s.env {
			if _, ok := r.env[k]; !ok {
				r.env[k] = a.opaque(b, "e"+k, y.T)
			}
		}
		for k, d := range s.cond {
			if _, ok := r.cond[k]; !ok {
				for wk, w := range d.writes() {
					r.written[wk] = w
				}
			}
		}
		for k, c := range r.cond {
			d, ok := s.cond[k]
			if !ok {
				r.flush(k)
				continue
			}
			r.cond[k] = mergeCond(c, d)
		}
		for k, w := range s.written {
			r.written[k] = w
		}
		if len(s.defers) > len(r.defers) {
			r.defers = s.defers
		}
	}
	return r
}

// antiUnify returns the expression that is x in one state and y in the other, in terms of values that are
// merged anyway.
func antiUnify(x, y *Expr, names map[string]*Expr, top bool) *Expr {
	if x.Key() == y.Key() {
		return x
	}
	if x.Op == y.Op && x.S == y.S && x.Site == y.Site && x.Fn == y.Fn && len(x.Args) == len(y.Args) && len(x.Args) > 0 && len(x.Fields) == 0 && len(y.Fields) == 0 {
		switch x.Op {
		case "call", "list", "ext", "conv", "iface", "bin", "index", "field", "len":
			n := *x
			n.key = ""
			n.Args = nil
			for i := range x.Args {
				g := antiUnify(x.Args[i], y.Args[i], names, true)
				if g == nil {
					break
				}
				n.Args = append(n.Args, g)
			}
			if len(n.Args) == len(x.Args) {
				return &n
			}
		}
	}
	if top {
		return names[x.Key()+"|"+y.Key()]
	}
	return nil
}

// generalize intersects facts; calls that were made with arguments that differ as the merged values do have
// been made with the merged values.
func generalize(x, y *Facts, names map[string]*Expr) *Facts {
	r := x.intersect(y)
	if len(names) == 0 {
		return r
	}
	for _, k := range x.keys() {
		f := x.m[k]
		if f.Op != "did" || y.has(f) || f.A[0].Op != "call" {
			continue
		}
		for _, l := range y.keys() {
			g := y.m[l]
			if g.Op != "did" || x.has(g) || g.A[0].Op != "call" || g.A[0].S != f.A[0].S {
				continue
			}
			if u := antiUnify(f.A[0], g.A[0], names, false); u != nil {
				if n := r.add(mkFact("did", u)); n != nil {
					r = n
				}
			}
		}
	}
	return r
}

// writes returns what the call may have written.
func (c *callRes) writes() map[string]*Write {
	m := map[string]*Write{}
	for _, o := range c.outs {
		for k, w := range o.Written {
			m[k] = w
		}
	}
	return m
}

// flush forgets about the outcomes of a call.
func (s *State) flush(k string) {
	if c, ok := s.cond[k]; ok {
		for wk, w := range c.writes() {
			s.written[wk] = w
		}
		delete(s.cond, k)
	}
}

// allWritten returns what may have been written so far.
func (s *State) allWritten() map[string]*Write {
	m := copyW(s.written)
	for _, c := range s.cond {
		for _, o := range c.outs {
			for k, w := range o.Written {
				m[k] = w
			}
		}
	}
	return m
}

func mergeCond(c, d *callRes) *callRes {
	n := &callRes{ce: c.ce, callee: c.callee}
	for _, o := range c.outs {
		for _, p := range d.outs {
			if o.In == p.In && argKeys(o.Results) == argKeys(p.Results) {
				wr := copyW(o.Written)
				for k, w := range p.Written {
					wr[k] = w
				}
				n.outs = append(n.outs, &Outcome{Results: o.Results, Facts: o.Facts.intersect(p.Facts), In: o.In, Written: wr})
				break
			}
		}
	}
	if len(n.outs) < len(c.outs) || len(n.outs) < len(d.outs) {
		// not the same sets: keep the union
		seen := map[string]bool{}
		for _, o := range n.outs {
			seen[fmt.Sprintf("%p%s", o.In, argKeys(o.Results))] = true
		}
		for _, l := range [][]*Outcome{c.outs, d.outs} {
			for _, o := range l {
				k := fmt.Sprintf("%p%s", o.In, argKeys(o.Results))
				if !seen[k] {
					seen[k] = true
					n.outs = append(n.outs, o)
				}
			}
		}
	}
	return n
}

func (a *analysis) opaque(b *ssa.BasicBlock, name string, t types.Type) *Expr {
	return &Expr{Op: "opaque", S: fmt.Sprintf("%s.%d.%s", shortFn(a.fn), b.Index, name), T: t}
}

func shortFn(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(nil), "github.com/shutter-network/shutter/", "")
}

func (a *analysis) block(b *ssa.BasicBlock) {
	var in []*State
	if b.Index == 0 {
		in = append(in, a.entry())
	}
	if a.header[b] {
		var ss []*State
		if b.Index == 0 {
			ss = append(ss, in...)
		}
		// Facts can only get lost at a loop header. When more has become known before the loop, what
		// is known after its iterations has to be recomputed.
		var sigs []string
		for _, p := range b.Preds {
			if !a.backs[edge{p.Index, b.Index}] {
				for _, s := range a.es[edge{p.Index, b.Index}] {
					sigs = append(sigs, s.facts.String())
				}
			}
		}
		sort.Strings(sigs)
		sg := strings.Join(sigs, "\n")
		reset := a.pass < 12 && a.pass > 0 && a.entSig[b] != sg
		a.entSig[b] = sg
		if reset {
			a.changed = true
		}
		for pi, p := range b.Preds {
			isBack := a.backs[edge{p.Index, b.Index}]
			if isBack && reset {
				continue
			}
			for _, s := range a.es[edge{p.Index, b.Index}] {
				n := s.clone()
				// facts about this loop's variables are about the previous iteration
				stale := func(x *Expr) bool {
					return (x.Op == "phi" || x.Op == "opaque") && strings.HasPrefix(x.S, fmt.Sprintf("%s.%d.", shortFn(a.fn), b.Index))
				}
				old := n.facts
				if !isBack {
					// what is nil when the loop is entered
					for _, k := range old.keys() {
						f := old.m[k]
						if f.Op == "eq" && f.A[1].Op == "nil" && f.A[0].Op == "field" && f.A[0].Args[0].Op == "field" {
							if g := n.facts.add(mkFact("did", &Expr{Op: "call", S: "wasnil", Args: []*Expr{f.A[0]}})); g != nil {
								n.facts = g
							}
						}
					}
				}
				n.facts = n.facts.filter(func(f *Fact) bool { return f.Op == "forall" && !contains(f.A[0], stale) || !f.mentions(stale) })
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					x := a.phiExpr(phi)
					// a counter is never smaller than its start
					if a.countsUp(phi) {
						if isBack {
							for _, f := range old.m {
								if f.Op == "le" && f.A[1].Key() == x.Key() && !contains(f.A[0], stale) {
									if g := n.facts.add(f); g != nil {
										n.facts = g
									}
								}
							}
						} else if st := a.val(s, phi.Edges[pi]); st.Op != "const" && !contains(st, stale) {
							if g := n.facts.add(mkFact("le", st, x)); g != nil {
								n.facts = g
							}
						}
					}
					n.vals[phi] = x
				}
				ss = append(ss, n)
			}
		}
		if len(ss) == 0 {
			return
		}
		m := a.mergeStates(b, ss)
		old := a.headSt[b]
		if old == nil || !old.facts.sameAs(m.facts) || !sameWritten(old.written, m.written) || !sameEnv(old.env, m.env) {
			a.changed = true
		}
		a.headSt[b] = m
		in = []*State{m.clone()}
	} else {
		for pi, p := range b.Preds {
			for _, s := range a.es[edge{p.Index, b.Index}] {
				n := s.clone()
				upd := map[*ssa.Phi]*Expr{}
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// which pred index? several edges from the same block are possible
					if b.Preds[pi] == p {
						upd[phi] = a.val(s, phi.Edges[pi])
					}
				}
				for phi, v := range upd {
					n.vals[phi] = v
				}
				in = append(in, n)
			}
		}
	}
	if len(in) == 0 {
		return
	}
	in = a.reduce(b, in)
	a.curBlock = b
	for _, s := range b.Succs {
		k := edge{b.Index, s.Index}
		if a.backs[k] {
			a.esOld[k] = a.es[k]
		}
		delete(a.es, k)
	}
	for _, s := range in {
		a.exec(b, s)
	}
}

func sameWritten(x, y map[string]*Write) bool { return len(x) == len(y) }
func sameEnv(x, y map[string]*Expr) bool {
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if w, ok := y[k]; !ok || w.Key() != v.Key() {
			return false
		}
	}
	return true
}

// countsUp: in every iteration 1 is added.
func (a *analysis) countsUp(phi *ssa.Phi) bool {
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for i, ed := range phi.Edges {
		if !a.backs[edge{phi.Block().Preds[i].Index, phi.Block().Index}] {
			continue
		}
		o, ok := ed.(*ssa.BinOp)
		if !ok || o.Op != token.ADD || o.X != phi {
			return false
		}
		if c, ok := o.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
	}
	return true
}

func (a *analysis) phiExpr(phi *ssa.Phi) *Expr {
	s := fmt.Sprintf("%s.%d.%s", shortFn(a.fn), phi.Block().Index, phi.Name())
	// counters that start with a constant and count up
	if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		var start *int64
		up := true
		for i, ed := range phi.Edges {
			if a.backs[edge{phi.Block().Preds[i].Index, phi.Block().Index}] {
				o, ok := ed.(*ssa.BinOp)
				if !ok || o.Op != token.ADD || o.X != phi {
					up = false
					break
				}
				if c, ok := o.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
					up = false
				}
			} else if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
				n := c.Int64()
				if start == nil || n < *start {
					start = &n
				}
			} else {
				up = false
			}
		}
		if up && start != nil {
			s += fmt.Sprintf("≥%d", *start)
		}
	}
	return &Expr{Op: "phi", S: s, T: phi.Type()}
}

func (s *State) sig() string {
	var b strings.Builder
	for _, k := range s.facts.keys() {
		b.WriteString(k)
		b.WriteByte(';')
	}
	ks := make([]string, 0, len(s.env))
	for k := range s.env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k + "=" + s.env[k].Key() + ";")
	}
	return b.String()
}

// reduce removes duplicates and limits the number of states.
func (a *analysis) reduce(b *ssa.BasicBlock, in []*State) []*State {
	if len(in) == 1 {
		return in
	}
	seen := map[string]*State{}
	var out []*State
	for _, s := range in {
		k := s.sig()
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if v := s.vals[phi]; v != nil {
				k += "|" + v.Key()
			}
		}
		if o, ok := seen[k]; ok {
			*o = *a.mergeStates(b, []*State{o, s})
			continue
		}
		seen[k] = s
		out = append(out, s)
	}
	if len(out) <= maxStates {
		return out
	}
	// merge states that agree on the phis
	groups := map[string][]*State{}
	var order []string
	for _, s := range out {
		k := ""
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if v := s.vals[phi]; v != nil {
				k += "|" + v.Key()
			}
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var res []*State
	for _, k := range order {
		res = append(res, a.mergeStates(b, groups[k]))
	}
	if len(res) > maxStates {
		return []*State{a.mergeStates(b, res)}
	}
	return res
}

// val returns the expression of an SSA value in the given state.
func (a *analysis) val(s *State, v ssa.Value) *Expr {
	if x, ok := s.vals[v]; ok {
		if x.Op == "alloc" {
			if _, ok := s.env[x.S+x.Site]; ok {
				return a.snapshot(s, x, v)
			}
		}
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Basic); !ok {
				z := zeroOf(v.Type())
				return z
			}
			return nilExpr
		}
		return constExpr(v.Value, v.Type())
	case *ssa.Parameter:
		for i, p := range a.fn.Params {
			if p == v {
				if x := a.spec[i]; x != nil {
					return x
				}
				return paramExpr(v, i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range a.fn.FreeVars {
			if p == v {
				if x := a.spec[-i-1]; x != nil {
					return x
				}
				return &Expr{Op: "free", S: fmt.Sprintf("$f%d", i), T: v.Type()}
			}
		}
	case *ssa.Global:
		return &Expr{Op: "global", S: v.RelString(nil), Obj: v.Object(), T: v.Type()}
	case *ssa.Function:
		return &Expr{Op: "func", S: v.RelString(nil), Fn: v, T: v.Type()}
	case *ssa.Builtin:
		return &Expr{Op: "func", S: v.Name(), T: v.Type()}
	}
	return &Expr{Op: "opaque", S: shortFn(a.fn) + ".v." + v.Name(), T: v.Type()}
}

// snapshot describes the object allocated by x at this point.
func (a *analysis) snapshot(s *State, x *Expr, v ssa.Value) *Expr {
	id := x.S + x.Site
	base, hasBase := s.env[id]
	fields := map[string]*Expr{}
	st := structType(v.Type())
	if x.T != nil { // v may be an interface that holds the pointer
		st = structType(x.T)
	}
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if fv, ok := a.envGet(s, id+"."+f.Name(), f); ok {
				fields[f.Name()] = fv
			}
		}
	}
	if len(fields) == 0 && hasBase && base.Op != "zero" {
		return base // a copy of another value
	}
	if len(fields) == 0 && hasBase && st == nil {
		return base
	}
	if hasBase && base.Op != "zero" {
		if base = over(base, fields); len(base.Args) == 0 {
			return &Expr{Op: "alloc", S: x.S, Site: x.Site, Fields: base.Fields, T: x.T}
		}
		base.T = x.T
		return base
	}
	if hasBase && base.Op == "zero" && st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := fields[st.Field(i).Name()]; !ok {
				fields[st.Field(i).Name()] = zeroOf(st.Field(i).Type())
			}
		}
	}
	return &Expr{Op: "alloc", S: x.S, Site: x.Site, Fields: fields, T: x.T}
}

// envGet looks up path in the environment, including nested fields below it.
func (a *analysis) envGet(s *State, path string, f *types.Var) (*Expr, bool) {
	v, ok := s.env[path]
	var sub map[string]*Expr
	if st, isSt := f.Type().Underlying().(*types.Struct); isSt {
		for i := 0; i < st.NumFields(); i++ {
			if x, ok := a.envGet(s, path+"."+st.Field(i).Name(), st.Field(i)); ok {
				if sub == nil {
					sub = map[string]*Expr{}
				}
				sub[st.Field(i).Name()] = x
			}
		}
	}
	if sub != nil {
		r := &Expr{Op: "struct", Fields: sub, T: f.Type()}
		if ok {
			r = over(v, sub)
			r.T = f.Type()
		}
		return r, true
	}
	return v, ok
}

// over is the struct base with some fields replaced.
func over(base *Expr, fields map[string]*Expr) *Expr {
	if base.Op == "zero" {
		if st := structType(base.T); st != nil {
			m := map[string]*Expr{}
			for i := 0; i < st.NumFields(); i++ {
				m[st.Field(i).Name()] = zeroOf(st.Field(i).Type())
			}
			base = &Expr{Op: "struct", Fields: m, T: base.T}
		}
	}
	if base.Op != "struct" && base.Op != "alloc" || len(base.Fields) == 0 {
		return &Expr{Op: "struct", Args: []*Expr{base}, Fields: fields}
	}
	m := map[string]*Expr{}
	for n, v := range base.Fields {
		m[n] = v
	}
	for n, v := range fields {
		if b, ok := m[n]; ok && v.Op == "struct" && len(v.Args) == 0 && len(v.Fields) > 0 {
			v = over(b, v.Fields)
		}
		m[n] = v
	}
	return &Expr{Op: "struct", Args: base.Args, Fields: m}
}

// localPath returns the environment path of an address rooted at a local allocation of this
// function (or a value allocated in this function), if it is one.
func (a *analysis) localPath(s *State, addr ssa.Value) (string, bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		if e, ok := s.vals[x]; ok && e.Op == "alloc" {
			return e.S + e.Site, true
		}
	case *ssa.FieldAddr:
		if p, ok := a.localPath(s, x.X); ok {
			st := structType(x.X.Type())
			return p + "." + st.Field(x.Field).Name(), true
		}
	case *ssa.IndexAddr:
		if _, isArr := derefType(x.X.Type()).Underlying().(*types.Array); isArr {
			if p, ok := a.localPath(s, x.X); ok {
				if c, ok := x.Index.(*ssa.Const); ok {
					return p + "[" + c.Value.ExactString() + "]", true
				}
			}
		}
	default:
		// pointer phis resolve per path; objects created by callees are adopted
		if e, ok := s.vals[x]; ok && e.Op == "alloc" {
			if _, ok := s.env[e.S+e.Site]; ok {
				return e.S + e.Site, true
			}
		}
	}
	return "", false
}

// adopt makes objects returned by a callee local objects of the caller.
func (a *analysis) adopt(s *State, e *Expr) {
	if e == nil {
		return
	}
	if e.Op == "tuple" {
		for _, x := range e.Args {
			a.adopt(s, x)
		}
		return
	}
	if e.Op != "alloc" || len(e.Fields) == 0 || e.Site == "" {
		return
	}
	id := e.S + e.Site
	s.dropPath(id)
	s.env[id] = &Expr{Op: "zero", T: derefType(e.T)}
	for n, v := range e.Fields {
		s.env[id+"."+n] = v
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (s *State) dropPath(path string) {
	for k := range s.env {
		if strings.HasPrefix(k, path) && len(k) > len(path) && (k[len(path)] == '.' || k[len(path)] == '[') {
			delete(s.env, k)
		}
	}
}

// load returns the value stored at addr.
func (a *analysis) load(s *State, addr ssa.Value, t types.Type) *Expr {
	if p, ok := a.localPath(s, addr); ok {
		if r, ok := a.loadPath(s, addr, p); ok {
			return r
		}
	}
	return a.val(s, addr)
}

func (a *analysis) loadPath(s *State, addr ssa.Value, p string) (*Expr, bool) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		f := structType(x.X.Type()).Field(x.Field)
		if v, ok := a.envGet(s, p, f); ok {
			if v.Op == "struct" && len(v.Args) == 0 {
				// partially overwritten, the rest comes from the parent
				pp, _ := a.localPath(s, x.X)
				if pv, ok := a.loadPath(s, x.X, pp); ok {
					_ = pv
				}
			}
			return v, true
		}
		pp, _ := a.localPath(s, x.X)
		if v, ok := a.loadPath(s, x.X, pp); ok {
			return fieldOf(v, f), true
		}
	case *ssa.IndexAddr:
		if v, ok := s.env[p]; ok {
			return v, true
		}
		pp, _ := a.localPath(s, x.X)
		if v, ok := a.loadPath(s, x.X, pp); ok {
			if v.Op == "zero" {
				return zeroOf(derefType(addr.Type())), true
			}
			return indexOf(v, a.val(s, x.Index), derefType(addr.Type())), true
		}
	default:
		e := s.vals[addr]
		if e == nil {
			return nil, false
		}
		sn := a.snapshot(s, e, addr)
		if sn.Op == "alloc" {
			if st := structType(addr.Type()); st != nil {
				n := &Expr{Op: "struct", Fields: sn.Fields, T: derefType(addr.Type())}
				if len(sn.Fields) == 0 {
					if b, ok := s.env[p]; ok {
						return b, true
					}
				}
				return n, true
			}
			// arrays: collect elements
			if at, ok := derefType(addr.Type()).Underlying().(*types.Array); ok {
				_ = at
				if b, ok := s.env[p]; ok {
					return b, true
				}
			}
			if b, ok := s.env[p]; ok {
				return b, true
			}
		}
		return sn, true
	}
	return nil, false
}

// writeOf describes a store to addr, which is not local.
func (a *analysis) writeOf(s *State, addr ssa.Value) *Write {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		f := structType(x.X.Type()).Field(x.Field)
		return &Write{Obj: f, Base: a.addrExpr(s, x.X)}
	case *ssa.IndexAddr:
		return containerWrite(a.addrExpr(s, x.X))
	case *ssa.Global:
		return &Write{Obj: x.Object(), Base: a.val(s, x)}
	}
	return &Write{Base: a.addrExpr(s, addr)}
}

// containerWrite is the write of an element of the container c.
func containerWrite(c *Expr) *Write {
	x := c
	for x.Op == "slice" || x.Op == "conv" || x.Op == "index" {
		x = x.Args[0]
	}
	switch x.Op {
	case "field":
		return &Write{Obj: x.Obj, Base: x.Args[0], Elem: true}
	case "global":
		return &Write{Obj: x.Obj, Base: x, Elem: true}
	}
	return &Write{Base: c, Elem: true}
}

func (a *analysis) addrExpr(s *State, v ssa.Value) *Expr {
	return a.val(s, v)
}

func isFresh(e *Expr) bool { return e.Op == "alloc" || e.Op == "make" }

// kill removes what is no longer known after w.
func (a *analysis) inLoop(b *ssa.BasicBlock) bool {
	for _, body := range a.bodies {
		if body[b] {
			return true
		}
	}
	return false
}

func (a *analysis) kill(s *State, w *Write) {
	keep := func(f *Fact) bool { return !a.e.factKilled(f, w) }
	// what is known about entries of local maps and slices stays known, under keys that are not known any more
	var past []*Fact
	if a.cur != nil && !a.inLoop(a.cur.Block()) {
		for _, f := range s.facts.m {
			if (f.Op == "le" || f.Op == "lt") && !keep(f) {
				g := f.subst(&subst{f: func(x *Expr) *Expr {
					if x.Op == "index" && isFresh(rootOf(x.Args[0])) && !a.e.exprKilled(x, w) && !contains(x.Args[0], func(y *Expr) bool { return a.e.exprKilled(y, w) }) &&
						contains(x.Args[1], func(y *Expr) bool { return a.e.exprKilled(y, w) }) {
						return &Expr{Op: "index", Args: []*Expr{x.Args[0], {Op: "opaque", S: "old:" + siteName(a.cur) + x.Args[1].Key(), T: x.Args[1].T}}, T: x.T}
					}
					return nil
				}})
				if keep(g) {
					past = append(past, g)
				}
			}
		}
	}
	was := a.history(s, keep, w)
	s.facts = s.facts.filter(keep)
	for _, f := range was {
		if n := s.facts.add(f); n != nil {
			s.facts = n
		}
	}
	for _, f := range past {
		if n := s.facts.add(f); n != nil {
			s.facts = n
		}
	}
	for k, c := range s.cond {
		changed := false
		n := &callRes{ce: c.ce, callee: c.callee}
		for _, o := range c.outs {
			nf := o.Facts.filter(keep)
			if nf != o.Facts {
				changed = true
				o = &Outcome{Results: o.Results, Facts: nf, In: o.In, Written: o.Written}
			}
			n.outs = append(n.outs, o)
		}
		if changed {
			s.cond[k] = n
		}
	}
}

// history returns ghost facts for what was directly known about the written location.
func (a *analysis) history(s *State, keep func(*Fact) bool, w *Write) []*Fact {
	if w.Obj == nil {
		return nil
	}
	var r []*Fact
	for _, k := range s.facts.keys() {
		f := s.facts.m[k]
		switch f.Op {
		case "true", "false", "eq", "ne", "lt", "le":
		default:
			continue
		}
		if keep(f) {
			continue
		}
		direct := false
		for _, x := range f.A {
			x = strip(x)
			if x.Op == "has" || x.Op == "len" {
				x = x.Args[0]
			}
			if x.Op == "bin" && (x.S == "+" || x.S == "-") {
				x = strip(x.Args[0])
			}
			if (x.Op == "field" || x.Op == "index") && a.e.exprKilled(x, w) {
				direct = true
			}
		}
		if direct {
			r = append(r, mkFact("did", &Expr{Op: "call", S: "was:" + f.Op, Args: f.A}))
		}
	}
	if len(r) > 12 {
		return nil
	}
	return r
}

func (e *Engine) factKilled(f *Fact, w *Write) bool {
	if f.Op == "did" || (f.Op == "forall" && f.In.Op == "did") {
		return false
	}
	if f.Op == "clean" {
		return false
	}
	return f.mentions(func(x *Expr) bool { return e.exprKilled(x, w) })
}

// exprKilled reports whether the value of x itself may change by w.
func (e *Engine) exprKilled(x *Expr, w *Write) bool {
	switch x.Op {
	case "field":
		if w.Obj != nil && x.Obj == w.Obj {
			if w.Elem {
				return false // elements: see index/has
			}
			return !distinct(x.Args[0], w.Base)
		}
		if w.Obj == nil && !w.Elem {
			return x.Args[0].Key() == w.Base.Key()
		}
	case "index", "has", "len":
		if w.Elem {
			c := containerWrite(x.Args[0])
			if c.Obj != w.Obj {
				return false
			}
			if c.Obj == nil {
				return c.Base.Key() == w.Base.Key()
			}
			return !distinct(c.Base, w.Base)
		}
	case "global":
		return w.Obj != nil && x.Obj == w.Obj
	case "call":
		if isSource(x.Fn) && w.Obj != nil {
			return e.Reads(x.Fn)[w.Obj]
		}
	}
	return false
}

func distinct(a, b *Expr) bool {
	ra, rb := rootOf(a), rootOf(b)
	if isFresh(ra) && isFresh(rb) {
		return ra.Key() != rb.Key()
	}
	if isFresh(ra) != isFresh(rb) {
		// a fresh object cannot be reached through a path rooted in a parameter, unless it has been
		// stored there; fields of such objects are rarely tested afterwards
		return a.Key() != b.Key() && (ra.Op == "param" || rb.Op == "param" || ra.Op == "global" || rb.Op == "global")
	}
	return false
}

// Reads returns the fields and globals fn may read.
func (e *Engine) Reads(fn *ssa.Function) map[types.Object]bool {
	if r, ok := e.reads[fn]; ok {
		return r
	}
	r := map[types.Object]bool{}
	e.reads[fn] = r
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !isSource(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					r[structType(x.X.Type()).Field(x.Field)] = true
				case *ssa.Field:
					r[structType(x.X.Type()).Field(x.Field)] = true
				}
				for _, op := range in.Operands(nil) {
					switch y := (*op).(type) {
					case *ssa.Global:
						if y.Object() != nil {
							r[y.Object()] = true
						}
					case *ssa.Function:
						visit(y)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range e.P.Callees(c.Common()) {
						visit(t)
					}
				}
			}
		}
	}
	visit(fn)
	return r
}

func (a *analysis) recordWrite(s *State, w *Write) {
	if a.cur != nil {
		if a.blkW == nil {
			a.blkW = map[*ssa.BasicBlock]map[string]*Write{}
		}
		if a.blkW[a.cur.Block()] == nil {
			a.blkW[a.cur.Block()] = map[string]*Write{}
		}
		a.blkW[a.cur.Block()][w.key()] = w
	}
	a.kill(s, w)
	k := w.key()
	if a.condWrites {
		a.lastW = append(a.lastW, w)
	} else {
		s.written[k] = w
	}
	a.sum.Writes[k] = w
}

func (a *analysis) site(s *State, kind string, in ssa.Instruction, mk func(*Site)) *Site {
	st := a.sites[in]
	if st == nil {
		st = &Site{Kind: kind, In: in, Fn: a.fn}
		a.sites[in] = st
		a.sum.Sites = append(a.sum.Sites, st)
		mk(st)
	} else {
		// refresh the argument expressions for this path
		n := &Site{Kind: kind, In: in, Fn: a.fn}
		mk(n)
		wr := s.allWritten()
		for _, f := range s.expand() {
			st.Alts = append(st.Alts, &Alt{Facts: f, Written: wr, Args: n.Args, Target: n.Target, FnExpr: n.FnExpr, W: n.W, Res: n.Res})
		}
		return st
	}
	wr := s.allWritten()
	for _, f := range s.expand() {
		st.Alts = append(st.Alts, &Alt{Facts: f, Written: wr, Args: st.Args, Target: st.Target, FnExpr: st.FnExpr, W: st.W, Res: st.Res})
	}
	return st
}

// ghost records that a write has been made: did(kind:field(target, key, value)).
func (a *analysis) ghost(s *State, kind string, w *Write, args ...*Expr) {
	n := "*"
	if w.Obj != nil {
		n = w.Obj.Name()
	}
	if f := s.facts.add(&Fact{Op: "did", A: []*Expr{{Op: "call", S: kind + ":" + n, Args: args}}}); f != nil {
		s.facts = f
	}
}

// expand returns the facts of s, split by the remaining outcomes of earlier calls.
func (s *State) expand() []*Facts {
	out := []*Facts{s.facts}
	ks := make([]string, 0, len(s.cond))
	for k := range s.cond {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := s.cond[k]
		if len(c.outs) > 6 || len(c.outs)*len(out) > 12 {
			continue
		}
		var n []*Facts
		for _, f := range out {
			for _, o := range c.outs {
				g := f.addAll(o.Facts)
				for i, r := range o.Results {
					if g == nil {
						break
					}
					x := c.ce
					if x == nil {
						continue
					}
					if len(o.Results) > 1 {
						x = extOf(c.ce, i, r.T)
					}
					if x.Key() != r.Key() {
						switch {
						case r.Op == "nil":
							g = g.add(mkFact("eq", x, nilExpr))
							continue
						case nonNil(r) || g.has(mkFact("ne", r, nilExpr)):
							g = g.add(mkFact("ne", x, nilExpr))
							continue
						}
					}
					if r.Op != "const" || r.S == "zero" {
						continue
					}
					if y := binOf("==", x, r, types.Typ[types.Bool]); y != nil {
						if l := lit(y, true); l != nil {
							g = g.add(l)
						}
					}
				}
				if g != nil {
					n = append(n, g)
				}
			}
		}
		n = dedupe(n)
		if len(n) > 0 {
			out = n
		}
	}
	return out
}

func copyW(m map[string]*Write) map[string]*Write {
	n := make(map[string]*Write, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// exec runs the instructions of b on s and distributes the result to the outgoing edges.
func (a *analysis) exec(b *ssa.BasicBlock, s *State) { a.execFrom(b, s, 0) }

func (a *analysis) execFrom(b *ssa.BasicBlock, s *State, start int) {
	for i := start; i < len(b.Instrs); i++ {
		a.forks = nil
		ok := a.instr(b, s, b.Instrs[i])
		forks := a.forks
		a.forks = nil
		for _, f := range forks {
			a.execFrom(b, f, i+1)
		}
		if !ok || s.facts == nil {
			return
		}
	}
}

func (a *analysis) out(b, to *ssa.BasicBlock, s *State) {
	k := edge{b.Index, to.Index}
	a.es[k] = append(a.es[k], s)
}

func (a *analysis) rekill(s *State, op, id string) {
	p := func(x *Expr) bool {
		return x.Op == op && x.S+x.Site == id || op == "call" && x.Site != "" && strings.HasSuffix(x.Site, id)
	}
	s.facts = s.facts.filter(func(f *Fact) bool { return f.Op == "forall" || f.Op == "did" || !f.mentions(p) })
}

func (a *analysis) instr(b *ssa.BasicBlock, s *State, in ssa.Instruction) bool {
	a.cur = in
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		id := shortFn(a.fn) + "." + x.Name()
		s.dropPath(id)
		a.rekill(s, "alloc", id)
		s.vals[x] = &Expr{Op: "alloc", S: id, T: x.Type()}
		s.env[id] = zeroOf(derefType(x.Type()))
	case *ssa.Store:
		v := a.val(s, x.Val)
		if p, ok := a.localPath(s, x.Addr); ok {
			s.dropPath(p)
			s.env[p] = v
			// facts about the object's identity
			return true
		}
		w := a.writeOf(s, x.Addr)
		target := a.val(s, x.Addr)
		a.site(s, "store", in, func(st *Site) { st.W, st.Target, st.Args = w, target, []*Expr{v} })
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if p, ok := a.localPath(s, ia.X); ok { // non-constant index into a local array
				s.dropPath(p)
				s.env[p] = a.opaque(b, "arr"+x.Addr.Name(), derefType(ia.X.Type()))
				return true
			}
		}
		a.recordWrite(s, w)
		a.ghost(s, "store", w, target, v)
		if w.Obj != nil || w.Elem {
			if !contains(v, func(y *Expr) bool { return a.e.exprKilled(y, w) }) {
				if f := s.facts.add(mkBoolEq(target, v, true)); f != nil {
					s.facts = f
				}
			}
		}
	case *ssa.MapUpdate:
		m := a.val(s, x.Map)
		k, v := a.val(s, x.Key), a.val(s, x.Value)
		w := containerWrite(m)
		if s.facts.NotHas(Is(m), Is(k)) {
			if f := s.facts.add(&Fact{Op: "did", A: []*Expr{{Op: "call", S: "insertnew", Args: []*Expr{m, k}}}}); f != nil {
				s.facts = f
			}
		}
		a.site(s, "mapupdate", in, func(st *Site) { st.W, st.Target, st.Args = w, m, []*Expr{k, v} })
		a.recordWrite(s, w)
		a.ghost(s, "mapupdate", w, m, k, v)
		if f := s.facts.add(mkFact("true", &Expr{Op: "has", Args: []*Expr{m, k}})); f != nil {
			s.facts = f
		}
		if !contains(v, func(y *Expr) bool { return a.e.exprKilled(y, w) }) {
			if f := s.facts.add(mkBoolEq(indexOf(m, k, x.Value.Type()), v, true)); f != nil {
				s.facts = f
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			s.vals[x] = a.load(s, x.X, x.Type())
		case token.NOT:
			s.vals[x] = notOf(a.val(s, x.X))
		case token.ARROW:
			id := shortFn(a.fn) + "." + x.Name()
			ch := a.val(s, x.X)
			a.site(s, "recv", in, func(st *Site) { st.Target = ch })
			a.rekill(s, "opaque", id)
			r := &Expr{Op: "opaque", S: id, T: x.Type()}
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				s.vals[x] = &Expr{Op: "tuple", Args: []*Expr{{Op: "opaque", S: id + ".0", T: tt.At(0).Type()}, {Op: "opaque", S: id + ".1", T: tt.At(1).Type()}}}
			} else {
				s.vals[x] = r
			}
		default:
			s.vals[x] = &Expr{Op: "neg", S: x.Op.String(), Args: []*Expr{a.val(s, x.X)}, T: x.Type()}
		}
	case *ssa.BinOp:
		s.vals[x] = binOf(x.Op.String(), a.val(s, x.X), a.val(s, x.Y), x.Type())
	case *ssa.FieldAddr:
		if _, ok := a.localPath(s, x); ok {
			if v, ok := a.loadPath(s, x, must(a.localPath(s, x))); ok {
				s.vals[x] = v
				return true
			}
		}
		s.vals[x] = fieldOf(a.val(s, x.X), structType(x.X.Type()).Field(x.Field))
	case *ssa.Field:
		s.vals[x] = fieldOf(a.val(s, x.X), structType(x.X.Type()).Field(x.Field))
	case *ssa.IndexAddr:
		s.vals[x] = indexOf(a.val(s, x.X), a.val(s, x.Index), derefType(x.Type()))
	case *ssa.Index:
		s.vals[x] = indexOf(a.val(s, x.X), a.val(s, x.Index), x.Type())
	case *ssa.Lookup:
		m, k := a.val(s, x.X), a.val(s, x.Index)
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			s.vals[x] = &Expr{Op: "tuple", Args: []*Expr{indexOf(m, k, tt.At(0).Type()), {Op: "has", Args: []*Expr{m, k}}}}
		} else {
			s.vals[x] = indexOf(m, k, x.Type())
		}
	case *ssa.Extract:
		s.vals[x] = extOf(a.val(s, x.Tuple), x.Index, x.Type())
	case *ssa.MakeInterface:
		s.vals[x] = a.val(s, x.X)
	case *ssa.ChangeType:
		s.vals[x] = a.val(s, x.X)
	case *ssa.ChangeInterface:
		s.vals[x] = a.val(s, x.X)
	case *ssa.SliceToArrayPointer:
		s.vals[x] = a.val(s, x.X)
	case *ssa.MultiConvert:
		s.vals[x] = a.val(s, x.X)
	case *ssa.Convert:
		s.vals[x] = convOf(a.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		bind := make([]*Expr, len(x.Bindings))
		for i, bv := range x.Bindings {
			bind[i] = a.val(s, bv)
		}
		fn := x.Fn.(*ssa.Function)
		s.vals[x] = &Expr{Op: "closure", S: fn.RelString(nil), Fn: fn, Args: bind, T: x.Type()}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		id := shortFn(a.fn) + "." + v.Name()
		a.rekill(s, "make", id)
		s.vals[v] = &Expr{Op: "alloc", S: id, T: v.Type()}
	case *ssa.TypeAssert:
		v := a.val(s, x.X)
		tn := typeName(x.AssertedType)
		te := &Expr{Op: "ta", S: tn, Args: []*Expr{v}, T: x.AssertedType}
		if x.CommaOk {
			s.vals[x] = &Expr{Op: "tuple", Args: []*Expr{te, {Op: "istype", S: tn, Args: []*Expr{v}, T: x.AssertedType}}}
		} else {
			s.vals[x] = te
		}
	case *ssa.Range:
		s.vals[x] = a.val(s, x.X)
	case *ssa.Next:
		id := fmt.Sprintf("%s.%d.%s", shortFn(a.fn), x.Block().Index, x.Name())
		stale := func(y *Expr) bool { return y.Op == "opaque" && strings.HasPrefix(y.S, id) }
		s.facts = s.facts.filter(func(f *Fact) bool { return f.Op == "forall" || f.Op == "did" || !f.mentions(stale) })
		m := a.val(s, x.Iter)
		tt := x.Type().(*types.Tuple)
		k := &Expr{Op: "opaque", S: id + ".k", Args: nil, T: tt.At(1).Type()}
		ok := &Expr{Op: "opaque", S: id + ".ok", Args: []*Expr{m}, T: types.Typ[types.Bool]}
		s.vals[x] = &Expr{Op: "tuple", Args: []*Expr{ok, k, indexOf(m, k, tt.At(2).Type())}}
		if f := s.facts.add(mkFact("eq", &Expr{Op: "rangeof", Args: []*Expr{k}}, m)); f != nil {
			s.facts = f
		}
	case *ssa.Slice:
		s.vals[x] = a.sliceExpr(s, x)
	case *ssa.Select:
		id := shortFn(a.fn) + "." + x.Name()
		stale := func(y *Expr) bool { return y.Op == "opaque" && strings.HasPrefix(y.S, id) }
		s.facts = s.facts.filter(func(f *Fact) bool { return f.Op == "forall" || !f.mentions(stale) })
		tt := x.Type().(*types.Tuple)
		var args []*Expr
		for i := 0; i < tt.Len(); i++ {
			args = append(args, &Expr{Op: "opaque", S: fmt.Sprintf("%s.%d", id, i), T: tt.At(i).Type()})
		}
		for i, st := range x.States {
			ch := a.val(s, st.Chan)
			args[0].Args = append(args[0].Args, ch)
			_ = i
		}
		s.vals[x] = &Expr{Op: "tuple", Args: args}
		a.site(s, "select", in, func(st *Site) {
			var sent []*Expr
			for _, ss := range x.States {
				st.Args = append(st.Args, a.val(s, ss.Chan))
				v := nilExpr
				if ss.Dir == types.SendOnly {
					v = a.val(s, ss.Send)
				}
				sent = append(sent, v)
			}
			st.Res = &Expr{Op: "list", Args: sent}
		})
	case *ssa.Send:
		ch, v := a.val(s, x.Chan), a.val(s, x.X)
		a.site(s, "send", in, func(st *Site) { st.Target, st.Args = ch, []*Expr{v} })
	case *ssa.Call:
		return a.call(b, s, x)
	case *ssa.Go:
		a.spawn(s, "go", in, &x.Call)
	case *ssa.Defer:
		args := make([]*Expr, len(x.Call.Args))
		for i, v := range x.Call.Args {
			args[i] = a.val(s, v)
		}
		fe := a.val(s, x.Call.Value)
		s.defers = append(s.defers, &deferred{call: &x.Call, in: in, args: args, fn: fe})
		a.site(s, "defer", in, func(st *Site) {
			st.Args, st.FnExpr = args, fe
			st.Callee = x.Call.StaticCallee()
			st.Name = calleeName(&x.Call)
		})
	case *ssa.RunDefers:
		ds := s.defers
		s.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			if !a.callCommon(b, s, ds[i].in, ds[i].call, ds[i].args, ds[i].fn, nil) {
				return false
			}
		}
	case *ssa.Panic:
		v := a.val(s, x.X)
		a.site(s, "panic", in, func(st *Site) { st.Args = []*Expr{v} })
		return false
	case *ssa.Return:
		res := make([]*Expr, len(x.Results))
		for i, r := range x.Results {
			res[i] = a.val(s, r)
		}
		a.site(s, "return", in, func(st *Site) { st.Args = res })
		for _, o := range a.splitReturn(s, res) {
			o.In = in
			a.sum.Outs = append(a.sum.Outs, o)
		}
	case *ssa.Jump:
		a.forall(b, b.Succs[0], s)
		a.out(b, b.Succs[0], s)
	case *ssa.If:
		c := a.val(s, x.Cond)
		t, f := s.clone(), s
		if a.assume(t, c, true) {
			a.forall(b, b.Succs[0], t)
			for _, t := range a.latch(b, b.Succs[0], t) {
				a.out(b, b.Succs[0], t)
			}
		}
		if a.assume(f, c, false) {
			a.forall(b, b.Succs[1], f)
			for _, f := range a.latch(b, b.Succs[1], f) {
				a.out(b, b.Succs[1], f)
			}
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			s.vals[v] = &Expr{Op: "opaque", S: shortFn(a.fn) + "." + v.Name(), T: v.Type()}
		}
	}
	return true
}

// splitReturn distinguishes the outcomes of calls whose results are returned.
func (a *analysis) splitReturn(s *State, res []*Expr) []*Outcome {
	for k, c := range s.cond {
		if len(c.outs) > 8 {
			continue
		}
		used := false
		var ce *Expr
		for _, r := range res {
			if contains(r, func(x *Expr) bool {
				if x.Op == "call" && x.Key() == k {
					ce = x
					return true
				}
				return false
			}) {
				used = true
			}
		}
		if !used {
			continue
		}
		var out []*Outcome
		for _, o := range c.outs {
			f := s.facts.addAll(o.Facts)
			if f == nil {
				continue
			}
			rs := (&subst{rep: resultRep(ce, o)}).exprs(res)
			for i, r := range o.Results {
				rn := ce
				if len(o.Results) > 1 {
					rn = extOf(ce, i, nil)
				}
				if rn.Key() == r.Key() || f == nil {
					continue
				}
				switch {
				case r.Op == "nil":
					f = f.add(mkFact("eq", rn, nilExpr))
				case nonNil(r) || f.has(mkFact("ne", r, nilExpr)):
					f = f.add(mkFact("ne", rn, nilExpr))
				}
			}
			if f == nil {
				continue
			}
			n := s.clone()
			n.facts = f
			for wk, w := range o.Written {
				n.written[wk] = w
			}
			delete(n.cond, k)
			out = append(out, a.splitReturn(n, rs)...)
			if len(out) > maxOuts {
				break
			}
		}
		if len(out) > 0 && len(out) <= maxOuts {
			return out
		}
	}
	return []*Outcome{{Results: res, Facts: s.facts, Written: s.allWritten()}}
}

func must(s string, _ bool) string { return s }

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (a *analysis) sliceExpr(s *State, x *ssa.Slice) *Expr {
	if p, ok := a.localPath(s, x.X); ok {
		if at, ok := derefType(x.X.Type()).Underlying().(*types.Array); ok {
			if x.Low == nil && x.High == nil && x.Max == nil && at.Len() <= 64 {
				if base, ok := s.env[p]; ok && base.Op == "zero" {
					var elems []*Expr
					any := false
					for i := int64(0); i < at.Len(); i++ {
						st, isStruct := at.Elem().Underlying().(*types.Struct)
						ep := fmt.Sprintf("%s[%d]", p, i)
						if v, ok := s.env[ep]; ok {
							elems = append(elems, v)
							any = true
							continue
						}
						if isStruct {
							fs := map[string]*Expr{}
							for j := 0; j < st.NumFields(); j++ {
								if v, ok := a.envGet(s, ep+"."+st.Field(j).Name(), st.Field(j)); ok {
									fs[st.Field(j).Name()] = v
									any = true
								}
							}
							elems = append(elems, &Expr{Op: "struct", Args: []*Expr{zeroOf(at.Elem())}, Fields: fs, T: at.Elem()})
							continue
						}
						elems = append(elems, zeroOf(at.Elem()))
					}
					if any || at.Len() == 0 {
						return &Expr{Op: "list", Args: elems, T: x.Type()}
					}
				}
			}
		}
	}
	base := a.val(s, x.X)
	if x.Low == nil && x.High == nil && x.Max == nil {
		return base
	}
	g := func(v ssa.Value) *Expr {
		if v == nil {
			return &Expr{Op: "const", S: "_"}
		}
		return a.val(s, v)
	}
	return &Expr{Op: "slice", Args: []*Expr{base, g(x.Low), g(x.High), g(x.Max)}, T: x.Type()}
}

// forall adds, when a loop is left, the facts that hold after every iteration: for all elements when it
// is left regularly, and for those before the current one otherwise.
func (a *analysis) forall(b, to *ssa.BasicBlock, s *State) {
	for h := range a.header {
		if a.bodies[h][b] && !a.bodies[h][to] {
			a.forallLoop(h, s, h == b, nil)
		}
	}
}

// If keep is given, only the iterations for which it holds are looked at.
func (a *analysis) forallLoop(b *ssa.BasicBlock, s *State, regular bool, keep func(st *State, i int) bool) {
	bound, i, up := a.loopBound(b, s)
	if bound == nil {
		return
	}
	if !regular {
		if i == nil {
			return
		}
		dir := "up"
		if !up {
			dir = "down"
		}
		bound = &Expr{Op: "part", S: dir, Args: []*Expr{bound, i}, T: bound.T}
	}
	var common *Facts
	for i, p := range b.Preds {
		if !a.backs[edge{p.Index, b.Index}] {
			continue
		}
		states := a.es[edge{p.Index, b.Index}]
		if p == a.curBlock {
			states = a.esOld[edge{p.Index, b.Index}]
		}
		for _, st := range states {
			if keep != nil && !keep(st, i) {
				continue
			}
			if common == nil {
				common = st.facts
			} else {
				common = common.intersect(st.facts)
			}
		}
	}
	// the facts that hold after an iteration must have become stable
	sig := "none"
	if common != nil {
		sig = strings.Join(common.keys(), "|")
	}
	sigs := a.iterSig
	if keep != nil {
		sigs = a.keepSig
	}
	if sigs[b] != sig {
		sigs[b] = sig
		a.changed = true
	}
	if common == nil {
		return
	}
	for blk := range a.bodies[b] {
		for _, w := range a.blkW[blk] {
			common = common.filter(func(f *Fact) bool { return !a.e.factKilled(f, w) })
		}
	}
	pre := fmt.Sprintf("%s.%d.", shortFn(a.fn), b.Index)
	isVar := func(x *Expr) bool { return (x.Op == "phi" || x.Op == "opaque") && strings.HasPrefix(x.S, pre) }
	inner := map[string]bool{}
	for blk := range a.bodies[b] {
		for _, in := range blk.Instrs {
			if v, ok := in.(ssa.Value); ok {
				inner[shortFn(a.fn)+"."+v.Name()] = true
			}
		}
	}
	isInner := func(x *Expr) bool { return x.Op == "alloc" && inner[x.S] }
	for _, f := range common.m {
		if (regular || f.Op != "forall") && f.mentions(isVar) && !f.mentions(isInner) {
			if n := s.facts.add(&Fact{Op: "forall", A: []*Expr{bound}, In: f}); n != nil {
				s.facts = n
			}
		}
	}
}

func underOf(e *Expr) types.Type {
	if e == nil || e.T == nil {
		return nil
	}
	return e.T.Underlying()
}

func optKeys(es []*Expr) string {
	r := ""
	for _, e := range es {
		if e != nil {
			r += e.Key()
		}
		r += ","
	}
	return r
}

const maxLatch = 6

// latch distinguishes, when the loop with header b is left at its header (or at another of its conditions), the iterations in which the
// variables the loop carries have last been assigned: either never, or in an iteration whose facts held
// at that time.
func (a *analysis) latch(b, to *ssa.BasicBlock, s *State) []*State {
	one := []*State{s}
	left := b
	for !a.header[b] && len(b.Instrs) == 1 && len(b.Preds) == 1 { // a further condition of the loop
		b = b.Preds[0]
	}
	if !a.header[b] || a.bodies[b][to] {
		return one
	}
	var phis, always []*ssa.Phi
	counts := map[int]bool{} // phis that are incremented in some iterations
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		self := s.vals[phi]
		if self == nil {
			return one
		}
		changes, keeps, grows, steps := false, false, false, true
		for i, p := range b.Preds {
			if !a.backs[edge{p.Index, b.Index}] {
				continue
			}
			for _, st := range a.es[edge{p.Index, b.Index}] {
				v := a.val(st, phi.Edges[i])
				if v.Key() == self.Key() {
					keeps = true
				} else {
					changes = true
					if contains(v, func(x *Expr) bool { return x.Key() == self.Key() }) {
						grows = true
					}
					if n, ok := polyOf(v).add(polyOf(self), -1).constant(); !ok || n <= 0 {
						steps = false
					}
				}
			}
		}
		if changes && keeps && !grows {
			phis = append(phis, phi)
		}
		if changes && keeps && grows && steps {
			counts[len(phis)] = true
			phis = append(phis, phi)
		}
		if changes && !keeps && !grows {
			always = append(always, phi)
		}
	}
	if len(phis) == 0 {
		phis = always
	}
	if len(phis) == 0 {
		return one
	}
	pre := fmt.Sprintf("%s.%d.", shortFn(a.fn), b.Index)
	inner := map[string]bool{}
	for blk := range a.bodies[b] {
		for _, in := range blk.Instrs {
			if v, ok := in.(ssa.Value); ok {
				inner[shortFn(a.fn)+"."+v.Name()] = true
			}
		}
	}
	old := func(x *Expr) *Expr { // values of that iteration
		if (x.Op == "phi" || x.Op == "opaque") && strings.HasPrefix(x.S, pre) {
			return &Expr{Op: "opaque", S: x.S + "'", T: x.T, Args: x.Args}
		}
		return nil
	}
	isInner := func(x *Expr) bool { return (x.Op == "alloc" || x.Op == "opaque") && inner[x.S] }
	var res []*State
	// never assigned
	inits := map[string][]*Expr{}
	for i, p := range b.Preds {
		if a.backs[edge{p.Index, b.Index}] {
			continue
		}
		for _, st := range a.es[edge{p.Index, b.Index}] {
			var vs []*Expr
			for _, phi := range phis {
				vs = append(vs, a.val(st, phi.Edges[i]))
			}
			inits[argKeys(vs)] = vs
		}
	}
	add := func(vs []*Expr, facts []*Fact) {
		n := s.clone()
		rep := &subst{rep: map[string]*Expr{}}
		for i, phi := range phis {
			if vs[i] != nil && !counts[i] {
				rep.rep[s.vals[phi].Key()] = vs[i]
			}
		}
		sub := n.facts.subst(rep)
		if sub == nil {
			return
		}
		n.facts = sub
		for v, x := range n.vals {
			n.vals[v] = rep.expr(x)
		}
		for _, f := range facts {
			nf := n.facts.add(f)
			if nf == nil {
				return
			}
			n.facts = nf
		}
		res = append(res, n)
	}
	var ks []string
	for k := range inits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var fs []*Fact
		for i := range phis {
			if counts[i] {
				fs = append(fs, mkFact("eq", s.vals[phis[i]], inits[k][i]))
			}
		}
		had := len(res)
		add(inits[k], fs)
		if len(res) > had { // no iteration has assigned them
			a.forallLoop(b, res[len(res)-1], left == b, func(st *State, i int) bool {
				for _, phi := range phis {
					if a.val(st, phi.Edges[i]).Key() != s.vals[phi].Key() {
						return false
					}
				}
				return true
			})
		}
	}
	seen := map[string]bool{}
	for i, p := range b.Preds {
		if !a.backs[edge{p.Index, b.Index}] {
			continue
		}
		for _, st := range a.es[edge{p.Index, b.Index}] {
			vs := make([]*Expr, len(phis))
			any := false
			for j, phi := range phis {
				v := a.val(st, phi.Edges[i])
				if v.Key() != s.vals[phi].Key() {
					vs[j] = (&subst{f: old}).expr(v)
					any = true
				}
			}
			if !any {
				continue
			}
			alts := []*Facts{st.facts}
			for j := range vs {
				if vs[j] != nil && vs[j].Op == "call" && len(st.cond) > 0 {
					if x := st.expand(); len(x) <= 4 {
						alts = x
					}
				}
			}
			for _, fs := range alts {
				vs := append([]*Expr(nil), vs...)
				for j, phi := range phis {
					if vs[j] == nil || vs[j].Op != "call" {
						continue
					}
					if v := a.val(st, phi.Edges[i]); fs.has(mkFact("true", v)) {
						vs[j] = boolExpr(true)
					} else if fs.has(mkFact("false", v)) {
						vs[j] = boolExpr(false)
					}
				}
				for blk := range a.bodies[b] {
					for _, w := range a.blkW[blk] {
						fs = fs.filter(func(f *Fact) bool { return !a.e.factKilled(f, w) })
					}
				}
				var keep []*Fact
				for j := range phis {
					if counts[j] && vs[j] != nil {
						for _, is := range inits {
							if len(inits) == 1 {
								keep = append(keep, mkFact("lt", is[j], s.vals[phis[j]]))
							}
						}
					}
				}
				for _, k := range fs.keys() {
					f := fs.m[k]
					if f.mentions(isInner) || f.Op == "forall" {
						continue
					}
					keep = append(keep, f.subst(&subst{f: old}))
				}
				key := optKeys(vs) + "|" + fmt.Sprint(keep)
				if seen[key] {
					continue
				}
				seen[key] = true
				add(vs, keep)
			}
		}
	}
	if len(res) > maxLatch || len(res) == 0 {
		return one
	}
	return res
}

// loopBound describes what the loop with header b iterates over: the container, or the number of
// iterations, and (for counting loops) the number of the current iteration's element.
// It returns nil for other loops.
func (a *analysis) loopBound(b *ssa.BasicBlock, s *State) (*Expr, *Expr, bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, false
	}
	if ex, ok := iff.Cond.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			return a.val(s, nx.Iter), nil, false
		}
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, false
	}
	step := func(v ssa.Value) (start *Expr, up, ok bool) {
		off := int64(0)
		if o, isOp := v.(*ssa.BinOp); isOp && o.Op == token.ADD {
			if c, isC := o.Y.(*ssa.Const); isC && c.Value != nil {
				off = c.Int64()
				v = o.X
			}
		}
		phi, isPhi := v.(*ssa.Phi)
		if !isPhi || phi.Block() != b {
			return nil, false, false
		}
		var init ssa.Value
		up = true
		for i, e := range phi.Edges {
			if a.backs[edge{b.Preds[i].Index, b.Index}] {
				o, isOp := e.(*ssa.BinOp)
				if !isOp || (o.Op != token.ADD && o.Op != token.SUB) {
					return nil, false, false
				}
				if o.X != phi {
					return nil, false, false
				}
				c, isC := o.Y.(*ssa.Const)
				if !isC || c.Int64() != 1 {
					return nil, false, false
				}
				up = o.Op == token.ADD
			} else {
				init = e
			}
		}
		if init == nil {
			return nil, false, false
		}
		st := a.val(s, init)
		if off != 0 {
			st = binOf("+", st, intExpr(int(off)), st.T)
		}
		return st, up, true
	}
	norm := func(n *Expr) *Expr {
		n = strip(n)
		if n.Op == "len" {
			return n.Args[0]
		}
		return n
	}
	// the elements from a position on
	from := func(n, st *Expr) *Expr {
		n = norm(n)
		if st.Op == "const" {
			if st.S == "0" {
				return n
			}
			if strings.HasPrefix(st.S, "-") {
				return nil
			}
		}
		if _, isList := underOf(n).(*types.Slice); !isList {
			return nil
		}
		none := &Expr{Op: "const", S: "_"}
		return &Expr{Op: "slice", Args: []*Expr{n, st, none, none}, T: n.T}
	}
	if st, up, ok := step(bo.X); ok {
		if up && (bo.Op == token.LSS || bo.Op == token.NEQ) {
			if l := from(a.val(s, bo.Y), st); l != nil {
				return l, a.val(s, bo.X), true
			}
			return nil, nil, false
		}
		if !up && (bo.Op == token.GEQ || bo.Op == token.GTR) {
			y := a.val(s, bo.Y)
			last := bo.Op == token.GEQ && y.S == "0" || bo.Op == token.GTR && y.S == "-1"
			if st.Op == "bin" && st.S == "-" && st.Args[1].S == "1" && last {
				return norm(st.Args[0]), a.val(s, bo.X), false
			}
			// counting the remaining elements
			rest := bo.Op == token.GTR && y.S == "0" || bo.Op == token.GEQ && y.S == "1"
			if strip(st).Op == "len" && rest {
				return norm(st), binOf("-", a.val(s, bo.X), intExpr(1), nil), false
			}
		}
	}
	if st, up, ok := step(bo.Y); ok && up && bo.Op == token.GTR {
		if l := from(a.val(s, bo.X), st); l != nil {
			return l, a.val(s, bo.Y), true
		}
	}
	return nil, nil, false
}

// assume adds the fact that c evaluates to pos; it returns false if that is impossible.
func (a *analysis) assume(s *State, c *Expr, pos bool) bool {
	f := lit(c, pos)
	nf := s.facts.add(f)
	if nf == nil {
		return false
	}
	s.facts = nf
	if f.Op == "true" {
		if x := f.A[0]; x.Op == "call" && x.S == "bytes.Equal" && len(x.Args) == 2 {
			if nf := s.facts.add(mkFact("eq", x.Args[0], x.Args[1])); nf != nil {
				s.facts = nf
			}
		}
		if x := f.A[0]; x.Op == "opaque" && strings.HasSuffix(x.S, ".ok") && len(x.Args) == 1 {
			k := &Expr{Op: "opaque", S: strings.TrimSuffix(x.S, ".ok") + ".k", T: nil}
			if nf := s.facts.add(mkFact("true", &Expr{Op: "has", Args: []*Expr{x.Args[0], k}})); nf != nil {
				s.facts = nf
			}
		}
	}
	// use what is known about calls
	calls := map[string]*Expr{}
	for _, x := range f.A {
		walkExpr(x, func(y *Expr) bool {
			if y.Op == "call" {
				calls[y.Key()] = y
			}
			return true
		})
		y := wrapped(x)
		if y.Op == "call" {
			calls[y.Key()] = y
		}
	}
	for k, ce := range calls {
		cr := s.cond[k]
		if cr == nil {
			continue
		}
		var keep []*Outcome
		var common *Facts
		for _, o := range cr.outs {
			sub := &subst{rep: resultRep(ce, o)}
			lf := lit(sub.expr(c), pos)
			of := o.Facts.add(lf)
			if of == nil {
				continue
			}
			if of.Op() == "" && !consistent(s.facts, of) {
				continue
			}
			keep = append(keep, &Outcome{Results: o.Results, Facts: of, In: o.In, Written: o.Written})
			if common == nil {
				common = of
			} else {
				common = common.intersect(of)
			}
		}
		if len(keep) == 0 {
			return false
		}
		s.cond[k] = &callRes{ce: cr.ce, callee: cr.callee, outs: keep}
		if nf := s.facts.addAll(common); nf == nil {
			return false
		} else {
			s.facts = nf
		}
	}
	// calls whose outcomes do not differ in their results
	for k, cr := range s.cond {
		if len(cr.outs) < 2 || len(cr.outs) > 4 || calls[k] != nil {
			continue
		}
		same := true
		for _, o := range cr.outs[1:] {
			same = same && argKeys(o.Results) == argKeys(cr.outs[0].Results)
		}
		if !same || len(cr.outs[0].Results) == 0 {
			continue
		}
		var keep []*Outcome
		for _, o := range cr.outs {
			if consistent(s.facts, o.Facts) {
				keep = append(keep, o)
			}
		}
		if len(keep) == len(cr.outs) {
			continue
		}
		if len(keep) == 0 {
			return false
		}
		s.cond[k] = &callRes{ce: cr.ce, callee: cr.callee, outs: keep}
		if len(keep) == 1 {
			if nf := s.facts.addAll(keep[0].Facts); nf != nil {
				s.facts = nf
			} else {
				return false
			}
		}
	}
	return true
}

func (fs *Facts) Op() string { return "" }

func consistent(a, b *Facts) bool { return a.addAll(b) != nil }

func resultRep(call *Expr, o *Outcome) map[string]*Expr {
	rep := map[string]*Expr{}
	if len(o.Results) == 1 {
		rep[call.Key()] = o.Results[0]
	} else {
		for i, r := range o.Results {
			rep[fmt.Sprintf("%s#%d", call.Key(), i)] = r
		}
	}
	return rep
}

func (a *analysis) spawn(s *State, kind string, in ssa.Instruction, c *ssa.CallCommon) {
	args := make([]*Expr, len(c.Args))
	for i, v := range c.Args {
		args[i] = a.val(s, v)
	}
	fe := a.val(s, c.Value)
	a.site(s, kind, in, func(st *Site) {
		st.Args, st.FnExpr, st.Async = args, fe, true
		st.Callee = c.StaticCallee()
		st.Name = calleeName(c)
	})
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + typeName2(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "<dynamic>"
}

func typeName2(t types.Type) string { return types.TypeString(t, nil) }

const repoPrefix = "github.com/shutter-network/shutter/"

func fnName(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), repoPrefix, "")
}

func (a *analysis) call(b *ssa.BasicBlock, s *State, x *ssa.Call) bool {
	args := make([]*Expr, len(x.Call.Args))
	for i, v := range x.Call.Args {
		args[i] = a.val(s, v)
	}
	dst := a.cloneTarget(s, x)
	ok := a.callCommon(b, s, x, &x.Call, args, a.val(s, x.Call.Value), x)
	if ok && dst != "" {
		a.cloneInto(s, x, dst, args[0])
	}
	return ok
}

// cloneTarget returns the path of the fresh local object that a call fills with a deep copy of
// its first argument, if that is what it does.
func (a *analysis) cloneTarget(s *State, x *ssa.Call) string {
	f := x.Call.StaticCallee()
	if f == nil || len(x.Call.Args) != 2 || !isGobClone(f) {
		return ""
	}
	mi, ok := x.Call.Args[1].(*ssa.MakeInterface)
	if !ok {
		return ""
	}
	p, ok := a.localPath(s, mi.X)
	if !ok || structType(mi.X.Type()) == nil {
		return ""
	}
	if z := s.env[p]; z == nil || z.Op != "zero" {
		return ""
	}
	for k := range s.env {
		if strings.HasPrefix(k, p+".") {
			return ""
		}
	}
	return p
}

// isGobClone: the function encodes its first argument and decodes the result into its second.
func isGobClone(f *ssa.Function) bool {
	if len(f.Params) != 2 || f.Signature.Results().Len() != 0 {
		return false
	}
	var buf ssa.Value
	stage := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			arg := func(i int) ssa.Value {
				v := c.Call.Args[i]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				return v
			}
			coder := func(new string) (ssa.Value, bool) {
				n, ok := c.Call.Args[0].(*ssa.Call)
				if !ok || n.Call.StaticCallee() == nil || n.Call.StaticCallee().RelString(nil) != new {
					return nil, false
				}
				v := n.Call.Args[0]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				return v, true
			}
			switch c.Call.StaticCallee().RelString(nil) {
			case "(*encoding/gob.Encoder).Encode":
				v, ok := coder("encoding/gob.NewEncoder")
				if !ok || stage != 0 || arg(1) != f.Params[0] {
					return false
				}
				buf, stage = v, 1
			case "(*encoding/gob.Decoder).Decode":
				v, ok := coder("encoding/gob.NewDecoder")
				if !ok || stage != 1 || v != buf || arg(1) != f.Params[1] {
					return false
				}
				stage = 2
			}
		}
	}
	return stage == 2
}

// cloneInto: the object at path p becomes a deep copy of src. Numbers and the like are equal, what
// is referred to is new.
func (a *analysis) cloneInto(s *State, x *ssa.Call, p string, src *Expr) {
	mi := x.Call.Args[1].(*ssa.MakeInterface)
	st := structType(mi.X.Type())
	if mi0, ok := x.Call.Args[0].(*ssa.MakeInterface); !ok || !types.Identical(derefType(mi0.X.Type()), derefType(mi.X.Type())) {
		return
	}
	own := named(mi.X.Type()) != nil && hasOwnEncoding(a.e.P, named(mi.X.Type()))
	s.dropPath(p)
	s.env[p] = zeroOf(derefType(mi.X.Type()))
	base := &Expr{Op: "opaque", S: shortFn(a.fn) + ".clone." + siteName(x), T: mi.X.Type()}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() && !own {
			continue
		}
		v := &Expr{Op: "field", S: f.Name(), Args: []*Expr{base}, Obj: f, T: f.Type()}
		if _, ok := f.Type().Underlying().(*types.Basic); ok && !own {
			v = &Expr{Op: "field", S: f.Name(), Args: []*Expr{src}, Obj: f, T: f.Type()}
		}
		s.env[p+"."+f.Name()] = v
	}
}

var noReturn = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "os.Exit": true, "runtime.Goexit": true,
}

// packages whose functions do not modify their arguments
var readOnlyPkgs = map[string]bool{
	"log": true, "fmt": true, "errors": true, "github.com/pkg/errors": true, "strings": true, "bytes": true, "reflect": true, "time": true, "math": true,
	"github.com/kr/pretty": true, "strconv": true, "path/filepath": true, "os": true,
	"github.com/ethereum/go-ethereum/common": true, "github.com/ethereum/go-ethereum/crypto": true, "encoding/hex": true, "encoding/base64": true,
	"github.com/ethereum/go-ethereum/common/hexutil": true, "github.com/ethereum/go-ethereum/crypto/ecies": true,
}

// functions of these packages that do modify what their arguments point to
var fillsArgs = map[string]bool{
	"errors.As": true, "github.com/pkg/errors.As": true, "fmt.Sscan": true, "fmt.Sscanf": true, "fmt.Sscanln": true, "fmt.Fscan": true, "fmt.Fscanf": true,
	"fmt.Fscanln": true, "os.ReadFull": true, "encoding/hex.Decode": true, "encoding/hex.Encode": true,
}

// functions that do not change what their arguments point to (except for the receiver's own state)
var readOnlyFns = map[string]bool{
	"(*encoding/gob.Encoder).Encode": true, "(*encoding/json.Encoder).Encode": true, "encoding/json.Marshal": true,
	"google.golang.org/protobuf/proto.Marshal": true, "github.com/golang/protobuf/proto.Marshal": true, "io.WriteString": true,
	"(github.com/tendermint/tendermint/rpc/client.Client).TxSearch": true,
}

// packages whose functions modify at most their receiver, and depend on nothing but their arguments
var receiverOnly = map[string]bool{"github.com/supranational/blst/bindings/go": true, "math/big": true}

// methods of numbers and points that do not modify their receiver
var numReaders = map[string]bool{
	"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "FillBytes": true, "String": true, "Text": true, "Bit": true, "BitLen": true, "Uint64": true,
	"Int64": true, "IsInt64": true, "IsUint64": true, "GobEncode": true, "Equals": true, "Compress": true, "Serialize": true, "InG1": true, "InG2": true,
	"ToAffine": true, "Mult": true, "ToBendian": true, "KeyValidate": true, "SigValidate": true,
}

var purePkgs = map[string]bool{
	"fmt": true, "errors": true, "github.com/pkg/errors": true, "strings": true, "bytes": true, "reflect": true, "math": true, "strconv": true, "path/filepath": true, "path": true,
	"github.com/ethereum/go-ethereum/common": true, "github.com/ethereum/go-ethereum/crypto": true, "encoding/hex": true, "encoding/base64": true,
	"github.com/ethereum/go-ethereum/common/hexutil": true, "math/big": true,
}

func (a *analysis) callCommon(b *ssa.BasicBlock, s *State, in ssa.Instruction, c *ssa.CallCommon, args []*Expr, fe *Expr, res ssa.Value) bool {
	name := calleeName(c)
	var t types.Type
	if res != nil {
		t = res.Type()
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(b, s, in, bi.Name(), c, args, res)
	}
	callee := c.StaticCallee()
	if callee == nil && !c.IsInvoke() && (fe.Op == "closure" || fe.Op == "func") && fe.Fn != nil {
		callee = fe.Fn
		name = fnName(callee)
	}
	allArgs := args
	if c.IsInvoke() {
		allArgs = append([]*Expr{fe}, args...)
		if f, recv := a.e.P.dynamic(fe, c); f != nil {
			allArgs[0] = recv
			callee, args = f, allArgs
			name = fnName(f)
		}
	}
	if readOnlyFns[name] {
		// what is passed by reference to numbers is their value
		allArgs = append([]*Expr{}, allArgs...)
		off := len(allArgs) - len(c.Args)
		for i, v := range c.Args {
			if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
				if _, isBasic := pt.Elem().Underlying().(*types.Basic); isBasic {
					if _, ok := a.localPath(s, v); ok {
						allArgs[off+i] = a.load(s, v, pt.Elem())
					}
				}
			}
		}
	}
	site := "@" + shortFn(a.fn) + "." + siteName(in)
	var sum *Summary
	if isSource(callee) && a.e.P.InRepo(callee) && !a.e.Opaque[callee] {
		sum = a.e.summaryFor(callee, args, fe)
	}
	pure := false
	var effects *Summary // of a function that is not looked into
	if sum == nil && isSource(callee) && a.e.P.InRepo(callee) && a.e.Opaque[callee] && !a.e.inProg[callee] {
		effects = a.e.Summary(callee)
		pure = len(effects.Writes) == 0 && !a.e.P.Impure(callee)
	}
	if callee != nil && !isSource(callee) && callee.Pkg != nil {
		p := callee.Pkg.Pkg.Path()
		pure = purePkgs[p]
	}
	if callee != nil && !isSource(callee) && callee.Pkg == nil && callee.Signature.Recv() != nil {
		// methods of external types that have no package (wrappers)
		pure = false
	}
	if sum != nil && len(sum.Writes) == 0 && !a.e.P.Impure(callee) {
		pure = true
	}
	ce := &Expr{Op: "call", S: name, Fn: callee, Args: allArgs, T: t}
	if !pure {
		ce.Site = site
	}
	if g := a.e.P.getter(callee, allArgs); g != nil {
		a.site(s, "call", in, func(st *Site) {
			st.Callee, st.Name, st.Args, st.FnExpr, st.Res = callee, name, allArgs, fe, g
		})
		if res != nil {
			s.vals[res] = g
		}
		return true
	}
	st := a.site(s, "call", in, func(st *Site) {
		st.Callee, st.Name, st.Args, st.FnExpr, st.Res = callee, name, allArgs, fe, ce
	})
	_ = st
	if !pure {
		a.rekill(s, "call", site)
		s.flush(ce.Key())
	}
	if noReturn[name] {
		return false
	}
	// effects
	if sum != nil {
		m := argMap(args, fe)
		forgetWritten(m, sum)
		ctx := site
		sb := &subst{m: m, ctx: ctx}
		if len(sum.Outs) == 0 {
			return false // never returns
		}
		pre := s.facts
		var preState *State
		if len(sum.Writes) > 0 && len(sum.Outs) > 1 {
			preState = s.clone()
		}
		wmap := map[string]*Write{}
		for k, w := range sum.Writes {
			a.condWrites, a.lastW = true, nil
			a.applyWrite(b, s, &Write{Obj: w.Obj, Base: sb.expr(w.Base), Elem: w.Elem}, w, c, args, fe)
			a.condWrites = false
			if len(a.lastW) > 0 {
				wmap[k] = a.lastW[0]
			}
		}
		var outs []*Outcome
		for _, o := range sum.Outs {
			f := o.Facts.subst(sb)
			if f == nil {
				continue
			}
			no := &Outcome{Results: sb.exprs(o.Results), Facts: f, In: o.In, Written: map[string]*Write{}}
			for k := range o.Written {
				if w := wmap[k]; w != nil {
					no.Written[w.key()] = w
				}
			}
			if !consistent(s.facts, f) {
				continue
			}
			if preState != nil && len(o.Written) < len(sum.Writes) {
				// this outcome writes less than the others: it keeps more of what was known before
				keep := pre
				if len(o.Written) > 0 {
					t := preState.clone()
					for k := range o.Written {
						w := sum.Writes[k]
						if w == nil {
							t = nil
							break
						}
						a.condWrites, a.lastW = true, nil
						a.applyWrite(b, t, &Write{Obj: w.Obj, Base: sb.expr(w.Base), Elem: w.Elem}, w, c, args, fe)
						a.condWrites = false
					}
					keep = s.facts
					if t != nil {
						keep = t.facts
					}
				}
				dead := false
				for _, x := range keep.m {
					if s.facts.has(x) {
						continue
					}
					if nf := no.Facts.add(x); nf != nil {
						no.Facts = nf
					} else {
						dead = true
						break
					}
				}
				if dead || !consistent(keep, f) {
					continue
				}
			}
			outs = append(outs, no)
		}
		if len(outs) == 0 {
			return false
		}
		val := a.resultValue(ce, outs, t)
		// rename non-inlined results
		for i, o := range outs {
			rep := map[string]*Expr{}
			var same []*Fact
			for j, r := range o.Results {
				var rn *Expr
				if len(o.Results) == 1 {
					rn = val
				} else {
					rn = val.Args[j]
				}
				if bt, ok := typeOfExpr(rn).(*types.Basic); ok && bt.Info()&types.IsNumeric != 0 && rn.Key() != r.Key() && !hasForeignID(r, allArgs) {
					same = append(same, mkFact("eq", rn, r))
				}
				if _, ok := underOf(rn).(*types.Chan); ok && rn.Key() != r.Key() && !hasForeignID(r, allArgs) && !hasLocalID(r) {
					same = append(same, mkFact("eq", rn, r))
				}
				if len(outs) == 1 && len(o.Results) == 1 && (r.Op == "opaque" || r.Op == "phi") && ce.Site == "" {
					if _, isList := underOf(r).(*types.Slice); isList {
						same = append(same, mkFact("eq", ce, r))
					}
				}
				if rn.Key() != r.Key() && r.Op != "const" && r.Op != "nil" && r.Op != "zero" && r.Op != "param" && hasLocalID(r) {
					rep[r.Key()] = rn
				}
			}
			if len(rep) > 0 {
				rs := &subst{rep: rep}
				nf := noFacts
				for _, f := range o.Facts.m {
					g := f.subst(rs)
					if x := nf.add(g); x != nil {
						nf = x
					}
				}
				// facts both in terms of the callee and the caller
				if x := nf.addAll(o.Facts); x != nil {
					nf = x
				}
				outs[i] = &Outcome{Results: o.Results, Facts: nf, In: o.In, Written: o.Written}
			}
			for _, f := range same {
				if nf := outs[i].Facts.add(f); nf != nil {
					outs[i] = &Outcome{Results: o.Results, Facts: nf, In: o.In, Written: o.Written}
				}
			}
		}
		if _, isCall := in.(*ssa.Call); isCall && len(outs) > 1 && len(outs) <= 4 && (c.Signature().Results().Len() == 0 || forkResult(ce, val, outs) || (forkWrites(outs) && a.e.helperOf(callee, a.fn))) {
			// nothing to branch on later: go on separately
			a.did(s, name, ce, allArgs)
			first := true
			base := s.clone()
			for _, o := range outs {
				t := s
				if !first {
					t = base.clone()
				}
				nf := t.facts.addAll(o.Facts)
				if nf == nil {
					continue
				}
				t.facts = nf
				for k, w := range o.Written {
					t.written[k] = w
				}
				if res != nil && len(o.Results) == 1 {
					t.vals[res] = o.Results[0]
					a.adopt(t, o.Results[0])
				} else if res != nil && len(o.Results) > 1 {
					v := &Expr{Op: "tuple", Args: o.Results}
					t.vals[res] = v
					a.adopt(t, v)
				}
				if !first {
					a.forks = append(a.forks, t)
				}
				first = false
			}
			return !first
		}
		common := outs[0].Facts
		for _, o := range outs[1:] {
			common = common.intersect(o.Facts)
		}
		if nf := s.facts.addAll(common); nf != nil {
			s.facts = nf
		} else {
			return false
		}
		if len(outs) > 1 {
			s.cond[ce.Key()] = &callRes{ce: ce, callee: callee, outs: outs}
		} else {
			for k, w := range outs[0].Written {
				s.written[k] = w
			}
		}
		a.did(s, name, ce, allArgs)
		if res != nil {
			s.vals[res] = val
			a.adopt(s, val)
		}
		return true
	}
	// external or dynamic call
	if c.IsInvoke() || callee == nil {
		for _, t := range a.e.P.Callees(c) {
			if ts := a.e.Summary(t); ts != nil {
				m := map[string]*Expr{}
				for i := range allArgs {
					m[fmt.Sprintf("$%d", i)] = allArgs[i]
				}
				sb := &subst{m: m, ctx: site}
				for _, w := range sortedWrites(ts.Writes) {
					a.applyWrite(b, s, &Write{Obj: w.Obj, Base: sb.expr(w.Base), Elem: w.Elem}, w, nil, nil, nil)
				}
			}
		}
	}
	pkg := ""
	if callee != nil {
		pkg = pkgOf(callee)
	}
	if effects != nil {
		m := map[string]*Expr{}
		for i := range allArgs {
			m[fmt.Sprintf("$%d", i)] = allArgs[i]
		}
		sb := &subst{m: m, ctx: site}
		for _, w := range sortedWrites(effects.Writes) {
			a.applyWrite(b, s, &Write{Obj: w.Obj, Base: sb.expr(w.Base), Elem: w.Elem}, w, c, args, fe)
		}
	} else if receiverOnly[pkg] && callee.Signature.Recv() != nil && len(c.Args) > 0 {
		if !numReaders[callee.Name()] {
			a.clobber(b, s, c.Args[0], args[0], site)
		}
		if callee.Name() == "FillBytes" {
			a.clobber(b, s, c.Args[1], args[1], site)
		}
	} else if (!readOnlyPkgs[pkg] || fillsArgs[name]) && !readOnlyFns[name] && !(isBinding(callee) && callee.Name() != "Next") {
		for i, v := range c.Args {
			a.clobber(b, s, v, args[i], site)
		}
		if c.IsInvoke() {
			a.clobber(b, s, c.Value, fe, site)
		}
	}
	a.did(s, name, ce, allArgs)
	if name == "sort.Search" && len(args) == 2 {
		a.search(s, ce)
	}
	if res != nil {
		if tt, ok := res.Type().(*types.Tuple); ok {
			var rs []*Expr
			for i := 0; i < tt.Len(); i++ {
				rs = append(rs, extOf(ce, i, tt.At(i).Type()))
			}
			s.vals[res] = &Expr{Op: "tuple", Args: rs}
		} else {
			s.vals[res] = ce
		}
	}
	return true
}

// forkWrites: some outcomes have changed something and others have not, and the caller cannot tell
// them apart by looking at the error.
func forkWrites(outs []*Outcome) bool {
	for i, o := range outs {
		for _, p := range outs[:i] {
			n := len(o.Results) - 1
			if n < 0 || len(o.Written) == len(p.Written) || argKeys(o.Results) == argKeys(p.Results) {
				continue
			}
			if x, y := o.Results[n], p.Results[n]; n == 0 && x.Op != "const" && y.Op != "const" && x.Op != "nil" && y.Op != "nil" && !types.IsInterface(x.T) || n > 0 && x.Op == "nil" && y.Op == "nil" {
				return true
			}
		}
	}
	return false
}

// search records what a binary search finds: its predicate does not hold for what comes before the
// result, and holds for the result unless that is the number of elements.
func (a *analysis) search(s *State, ce *Expr) {
	n, cl := strip(ce.Args[0]), ce.Args[1]
	if (cl.Op != "closure" && cl.Op != "func") || !isSource(cl.Fn) {
		return
	}
	sum := a.e.summaryFor(cl.Fn, nil, cl)
	if sum == nil || len(sum.Writes) > 0 || len(sum.Outs) == 0 {
		return
	}
	holds := func(i *Expr, pos bool) *Facts {
		sb := &subst{m: argMap([]*Expr{i}, cl), ctx: ce.Site}
		var r *Facts
		for _, o := range sum.Outs {
			f := o.Facts.subst(sb)
			if f != nil {
				f = f.add(lit(sb.expr(o.Results[0]), pos))
			}
			if f == nil {
				continue
			}
			if r == nil {
				r = f
			} else {
				r = r.intersect(f)
			}
		}
		return r
	}
	list := n
	if n.Op == "len" {
		list = n.Args[0]
	}
	v := &Expr{Op: "opaque", S: "search" + ce.Site, T: ce.T}
	part := &Expr{Op: "part", S: "up", Args: []*Expr{list, ce}, T: list.T}
	before := holds(v, false)
	if before == nil {
		return
	}
	for _, f := range before.m {
		if !f.mentions(func(x *Expr) bool { return x.Key() == v.Key() }) {
			continue
		}
		if nf := s.facts.add(&Fact{Op: "forall", A: []*Expr{part}, In: f}); nf != nil {
			s.facts = nf
		}
	}
	at := holds(ce, true)
	if at == nil {
		return
	}
	found, none := at.add(mkFact("lt", ce, n)), noFacts.add(mkFact("eq", ce, n))
	if found == nil || none == nil {
		return
	}
	s.cond[ce.Key()] = &callRes{ce: ce, outs: []*Outcome{
		{Results: []*Expr{ce}, Facts: found, Written: map[string]*Write{}},
		{Results: []*Expr{ce}, Facts: none, Written: map[string]*Write{}},
	}}
}

// helperOf: fn is a part of caller that has been given a name: it is used nowhere else.
func (e *Engine) helperOf(fn, caller *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil || fn.Pkg != caller.Pkg {
		return false
	}
	if e.uses == nil {
		e.uses = map[*ssa.Function]int{}
		for _, f := range e.P.Functions() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							e.uses[g]++
						}
					}
				}
			}
		}
	}
	return e.uses[fn] == 1
}

// forkResult: the callee returns one of several values, one of which it makes itself; they are
// followed separately.
func forkResult(ce, val *Expr, outs []*Outcome) bool {
	if len(outs[0].Results) != 1 || val.Key() != ce.Key() || ce.T == nil {
		return false
	}
	if b, ok := ce.T.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return false
	}
	if types.IsInterface(ce.T) {
		return false
	}
	for _, o := range outs {
		if r := o.Results[0]; (r.Op == "alloc" || r.Op == "struct") && len(r.Fields) > 0 {
			return true
		}
	}
	return false
}

// forgetWritten removes the fields that the callee writes from the known contents of the objects
// that are passed to it: within the callee these fields do not keep the value from before the call.
func forgetWritten(m map[string]*Expr, sum *Summary) {
	for _, w := range sum.Writes {
		if w.Base == nil {
			continue
		}
		name := ""
		if v, ok := w.Obj.(*types.Var); ok && v.IsField() {
			name = v.Name()
		}
		b := w.Base
		for b.Op == "field" || b.Op == "index" || b.Op == "slice" {
			if b.Op == "field" {
				name = b.S
			}
			b = b.Args[0]
		}
		if b.Op != "param" && b.Op != "free" {
			continue
		}
		x := m[b.S]
		if x == nil || x.Op != "alloc" || len(x.Fields) == 0 {
			continue
		}
		n := *x
		n.key = ""
		n.Fields = map[string]*Expr{}
		for k, v := range x.Fields {
			if k != name && name != "" {
				n.Fields[k] = v
			}
		}
		m[b.S] = &n
	}
}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (a *analysis) did(s *State, name string, ce *Expr, args []*Expr) {
	if nf := s.facts.add(&Fact{Op: "did", A: []*Expr{ce}}); nf != nil {
		s.facts = nf
	}
}

// siteName identifies an instruction within its function.
func siteName(in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

func hasLocalID(e *Expr) bool {
	return contains(e, func(x *Expr) bool {
		return x.Op == "phi" || x.Op == "opaque" || x.Op == "alloc" || (x.Op == "call" && x.Site != "")
	})
}

// hasForeignID: e has a part that stands for something local to a call and that is not in the arguments.
func hasForeignID(e *Expr, args []*Expr) bool {
	known := map[string]bool{}
	for _, a := range args {
		contains(a, func(x *Expr) bool { known[x.Key()] = true; return false })
	}
	var visit func(x *Expr) bool
	visit = func(x *Expr) bool {
		return x != nil && !known[x.Key()] && (x.Op == "phi" || x.Op == "opaque" || x.Op == "alloc" || (x.Op == "call" && x.Site != "") || exists(x.Args, visit))
	}
	return visit(e)
}

func hasLoopID(e *Expr) bool {
	return contains(e, func(x *Expr) bool { return x.Op == "phi" || x.Op == "opaque" })
}

// resultValue returns the value of a call: the callee's result expression if all (successful)
// outcomes agree on it, and the call expression otherwise.
func (a *analysis) resultValue(ce *Expr, outs []*Outcome, t types.Type) *Expr {
	n := len(outs[0].Results)
	if n == 0 {
		return ce
	}
	errT := types.Universe.Lookup("error").Type()
	tt, _ := t.(*types.Tuple)
	ok := outs
	if n > 1 && tt != nil {
		last := tt.At(n - 1).Type()
		var good []*Outcome
		switch {
		case types.Identical(last, errT):
			for _, o := range outs {
				r := wrapped(o.Results[n-1])
				if nonNil(r) || o.Facts.has(mkFact("ne", r, nilExpr)) {
					continue
				}
				good = append(good, o)
			}
		case types.Identical(last, types.Typ[types.Bool]):
			for _, o := range outs {
				if r := o.Results[n-1]; r.Op == "const" && r.S == "false" {
					continue
				}
				good = append(good, o)
			}
		}
		if len(good) > 0 {
			ok = good
		}
	}
	pick := func(i int, set []*Outcome) *Expr {
		r := set[0].Results[i]
		for _, o := range set[1:] {
			if o.Results[i].Key() != r.Key() {
				return nil
			}
		}
		return r
	}
	if n == 1 {
		if r := pick(0, outs); r != nil {
			return r
		}
		return ce
	}
	var rs []*Expr
	for i := 0; i < n; i++ {
		set := ok
		if i == n-1 {
			set = outs
		}
		r := pick(i, set)
		if r == nil {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			r = extOf(ce, i, et)
		}
		rs = append(rs, r)
	}
	return &Expr{Op: "tuple", Args: rs}
}

func sortedWrites(m map[string]*Write) []*Write {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*Write, len(ks))
	for i, k := range ks {
		out[i] = m[k]
	}
	return out
}

// applyWrite applies a callee's write in the caller.
func (a *analysis) applyWrite(b *ssa.BasicBlock, s *State, w, orig *Write, c *ssa.CallCommon, args []*Expr, fe *Expr) {
	// a write to a local object of the caller?
	root := rootOf(orig.Base)
	if c != nil && (root.Op == "param" || root.Op == "free") {
		var v ssa.Value
		var n int
		if root.Op == "param" {
			if k, _ := fmt.Sscanf(root.S, "$%df%d", &n, new(int)); k == 2 {
				n = len(c.Args) + 1 // captured by a function that is passed
			} else {
				fmt.Sscanf(root.S, "$%d", &n)
			}
			if c.IsInvoke() {
				n--
			}
			if n < 0 {
				v = c.Value
			} else if n < len(c.Args) {
				v = c.Args[n]
			}
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
		} else {
			fmt.Sscanf(root.S, "$f%d", &n)
			if mc, ok := c.Value.(*ssa.MakeClosure); ok && n < len(mc.Bindings) {
				v = mc.Bindings[n]
			}
		}
		if v != nil {
			if p, ok := a.localPath(s, v); ok {
				if orig.Base.Op == root.Op { // direct field or deref of the local object
					full := p
					if orig.Obj != nil {
						full += "." + orig.Obj.Name()
					}
					s.dropPath(full)
					var t types.Type
					if orig.Obj != nil {
						t = orig.Obj.Type()
					}
					if orig.Elem {
						// contents of a container stored in the local object
						a.recordWrite(s, w)
						return
					}
					s.env[full] = &Expr{Op: "opaque", S: fmt.Sprintf("%s.w.%s.%s", shortFn(a.fn), siteName(a.cur), full), T: t}
					if sn, ok := s.vals[v]; !ok || sn.Op != "alloc" || a.snapshot(s, sn, v).Op == "struct" {
						return
					}
					return
				}
			}
		}
	}
	if r := rootOf(w.Base); r.Op == "alloc" && strings.Contains(r.Site, "@") && !a.reachable(s, r) {
		return // object created in the callee
	}
	a.recordWrite(s, w)
}

func (a *analysis) reachable(s *State, r *Expr) bool { return false }

// clobber forgets what is known about a local object passed to unknown code.
func (a *analysis) clobber(b *ssa.BasicBlock, s *State, v ssa.Value, e *Expr, site string) {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			a.clobber(b, s, mi.X, e, site)
		} else if types.IsInterface(v.Type()) && v.Type().Underlying().(*types.Interface).NumMethods() == 0 && e.Op == "param" {
			a.recordWrite(s, &Write{Base: e})
		}
		return
	}
	if p, ok := a.localPath(s, v); ok {
		s.dropPath(p)
		s.env[p] = &Expr{Op: "opaque", S: shortFn(a.fn) + ".c." + siteName(a.cur) + p, T: derefType(v.Type())}
		return
	}
	if n := named(v.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), strings.TrimSuffix(repoPrefix, "/")) {
		a.recordWrite(s, &Write{Base: e})
	}
}

func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (a *analysis) builtin(b *ssa.BasicBlock, s *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Expr, res ssa.Value) bool {
	var r *Expr
	switch name {
	case "len":
		r = lenOf(args[0])
	case "cap":
		r = &Expr{Op: "cap", Args: args, T: types.Typ[types.Int]}
	case "append":
		r = &Expr{Op: "call", S: "append", Args: args, T: c.Args[0].Type()}
		a.site(s, "call", in, func(st *Site) { st.Name, st.Args, st.Res = "append", args, r })
	case "copy":
		w := containerWrite(args[0])
		a.site(s, "call", in, func(st *Site) { st.Name, st.Args, st.W, st.Target = "copy", args, w, args[0] })
		if p, ok := a.sliceLocal(s, c.Args[0]); ok {
			s.dropPath(p)
			s.env[p] = &Expr{Op: "call", S: "copied", Args: []*Expr{args[1]}, T: c.Args[0].Type()}
			if sl := c.Args[0].(*ssa.Slice); sl.Low != nil || sl.High != nil {
				s.env[p] = a.opaque(b, "copied"+sl.Name(), derefType(sl.X.Type()))
			}
		} else {
			a.recordWrite(s, w)
		}
		r = &Expr{Op: "opaque", S: shortFn(a.fn) + "." + siteName(in)}
	case "delete":
		w := containerWrite(args[0])
		a.site(s, "delete", in, func(st *Site) { st.Name, st.Args, st.W, st.Target = "delete", args, w, args[0] })
		a.recordWrite(s, w)
		a.ghost(s, "delete", w, args[0], args[1])
		if f := s.facts.add(mkFact("false", &Expr{Op: "has", Args: []*Expr{args[0], args[1]}})); f != nil {
			s.facts = f
		}
	case "close":
		a.site(s, "call", in, func(st *Site) { st.Name, st.Args = "close", args })
	case "ssa:wrapnilchk":
		r = args[0]
	default:
		r = &Expr{Op: "opaque", S: shortFn(a.fn) + "." + siteName(in)}
	}
	if res != nil && r != nil {
		s.vals[res] = r
	}
	return true
}

// sliceLocal: copy(b[:], ...) into a local array
func (a *analysis) sliceLocal(s *State, v ssa.Value) (string, bool) {
	if sl, ok := v.(*ssa.Slice); ok {
		return a.localPath(s, sl.X)
	}
	return "", false
}

// mergeOuts limits the number of outcomes.
func (a *analysis) mergeOuts() {
	merge := func(key func(o *Outcome) string) {
		var res []*Outcome
		idx := map[string]*Outcome{}
		for _, o := range a.sum.Outs {
			k := key(o)
			if p, ok := idx[k]; ok {
				p.Facts = p.Facts.intersect(o.Facts)
				for w, x := range o.Written {
					p.Written[w] = x
				}
				for i := range p.Results {
					if p.Results[i].Key() != o.Results[i].Key() {
						var t types.Type
						if i < a.fn.Signature.Results().Len() {
							t = a.fn.Signature.Results().At(i).Type()
						}
						p.Results[i] = &Expr{Op: "opaque", S: fmt.Sprintf("%s.r%d", shortFn(a.fn), i), T: t}
					}
				}
				continue
			}
			n := &Outcome{Results: append([]*Expr{}, o.Results...), Facts: o.Facts, In: o.In, Written: copyW(o.Written)}
			idx[k] = n
			res = append(res, n)
		}
		a.sum.Outs = res
	}
	merge(func(o *Outcome) string { return argKeys(o.Results) + o.Facts.String() })
	if len(a.sum.Outs) > maxOuts {
		merge(func(o *Outcome) string { return argKeys(o.Results) })
	}
	if len(a.sum.Outs) > maxOuts {
		merge(func(o *Outcome) string {
			k := ""
			for _, r := range o.Results {
				if r.Op == "const" || r.Op == "nil" {
					k += r.Key() + ","
				} else if nonNil(r) {
					k += "nn,"
				} else {
					k += "?,"
				}
			}
			return k
		})
	}
}

func typeOfExpr(x *Expr) types.Type {
	if x == nil || x.T == nil {
		return nil
	}
	return x.T.Underlying()
}
