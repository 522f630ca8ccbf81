package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Order-insensitivity of map iterations, and sources of non-determinism.

type valClass int

const (
	vInv  valClass = iota // the same in all iterations
	vIter                 // depends on the iteration
	vKey                  // contains the whole key of the iteration
)

// loopOf returns the blocks of the natural loop with the given header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	l := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !l[p] {
			l[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !l[p] {
				l[p] = true
				work = append(work, p)
			}
		}
	}
	return l
}

type mapLoop struct {
	e      *Engine
	fn     *ssa.Function
	next   *ssa.Next
	blocks map[*ssa.BasicBlock]bool
	memo   map[ssa.Value]valClass
	issues []string
	writes bool // the loop changes memory that outlives the function
}

// mapLoops finds the iterations over maps in a function.
func mapLoops(e *Engine, fn *ssa.Function) []*mapLoop {
	var r []*mapLoop
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			r = append(r, &mapLoop{e: e, fn: fn, next: nx, blocks: loopOf(b), memo: map[ssa.Value]valClass{}})
		}
	}
	return r
}

func (l *mapLoop) in(b *ssa.BasicBlock) bool { return l.blocks[b] }

func (l *mapLoop) class(v ssa.Value) valClass {
	if c, ok := l.memo[v]; ok {
		return c
	}
	l.memo[v] = vIter // cycles
	c := l.class1(v)
	l.memo[v] = c
	return c
}

func maxClass(cs ...valClass) valClass {
	m := vInv
	for _, c := range cs {
		if c > m {
			m = c
		}
	}
	return m
}

func (l *mapLoop) class1(v ssa.Value) valClass {
	in, ok := v.(ssa.Instruction)
	if a, isA := v.(*ssa.Alloc); isA && !l.in(a.Block()) {
		c := vInv
		for _, st := range l.storesInto(a) {
			c = maxClass(c, l.class(st.Val))
		}
		return c
	}
	if !ok || !l.in(in.Block()) {
		return vInv
	}
	degrade := func(c valClass) valClass {
		if c == vKey {
			return vIter
		}
		return c
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Tuple == l.next {
			if x.Index == 1 {
				return vKey
			}
			return vIter
		}
		return degrade(l.class(x.Tuple))
	case *ssa.Convert:
		return l.class(x.X)
	case *ssa.ChangeType:
		return l.class(x.X)
	case *ssa.MakeInterface:
		return l.class(x.X)
	case *ssa.ChangeInterface:
		return l.class(x.X)
	case *ssa.Slice:
		return l.class(x.X)
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.NumFields() == 1 {
			return l.class(x.X)
		}
		return degrade(l.class(x.X))
	case *ssa.FieldAddr:
		if st := structType(x.X.Type()); st != nil && st.NumFields() == 1 {
			return l.class(x.X)
		}
		return degrade(l.class(x.X))
	case *ssa.IndexAddr:
		return degrade(maxClass(l.class(x.X), l.class(x.Index)))
	case *ssa.Alloc:
		c := vInv
		for _, st := range l.storesInto(x) {
			c = maxClass(c, l.class(st.Val))
		}
		return c
	case *ssa.UnOp:
		if x.Op == token.MUL {
			c := l.class(x.X)
			for _, st := range l.storesTo(x.X) {
				c = maxClass(c, l.class(st.Val))
			}
			return c
		}
		return degrade(l.class(x.X))
	case *ssa.Phi:
		return vIter
	}
	c := vInv
	for _, op := range in.Operands(nil) {
		if *op != nil {
			c = maxClass(c, degrade(l.class(*op)))
		}
	}
	return c
}

// addrRoot strips field and index selections.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// iterVar: a variable that is assigned before it is used in every iteration, and not used elsewhere.
func (l *mapLoop) iterVar(a *ssa.Alloc) bool {
	sts := l.storesTo(a)
	if len(sts) == 0 {
		return false
	}
	for _, in := range *a.Referrers() {
		if st, ok := in.(*ssa.Store); ok && st.Addr == a && !l.in(st.Block()) {
			continue
		}
		if _, ok := in.(*ssa.MakeClosure); ok || !l.in(in.Block()) {
			return false
		}
		ok := false
		for _, st := range sts {
			if in == ssa.Instruction(st) || before(st, in) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// storesInto lists the stores into a local object.
func (l *mapLoop) storesInto(a *ssa.Alloc) []*ssa.Store {
	var r []*ssa.Store
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && addrRoot(st.Addr) == a {
				r = append(r, st)
			}
		}
	}
	return r
}

// storesTo lists the stores in the loop to exactly this address value.
func (l *mapLoop) storesTo(addr ssa.Value) []*ssa.Store {
	var r []*ssa.Store
	if addr.Referrers() == nil {
		return nil
	}
	for _, in := range *addr.Referrers() {
		if st, ok := in.(*ssa.Store); ok && st.Addr == addr && l.in(st.Block()) {
			r = append(r, st)
		}
	}
	return r
}

func (l *mapLoop) issue(in ssa.Instruction, f string, args ...interface{}) {
	l.issues = append(l.issues, l.e.P.pos(in)+": "+fmt.Sprintf(f, args...))
}

// isLoad reports whether v reads the variable at addr.
func sameLoad(v, addr ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && sameAddr(u.X, addr)
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
	}
	return false
}

var commOps = map[token.Token]bool{token.ADD: true, token.MUL: true, token.OR: true, token.AND: true, token.XOR: true}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// accumulates: v is acc combined by a commutative operator with something that does not depend on acc.
func accumulates(v ssa.Value, isAcc func(ssa.Value) bool) bool {
	if isAcc(v) {
		return true
	}
	switch b := v.(type) {
	case *ssa.BinOp:
		if !isInteger(b.Type()) {
			return false
		}
		if commOps[b.Op] {
			return accumulates(b.X, isAcc) || accumulates(b.Y, isAcc)
		}
		return b.Op == token.SUB && accumulates(b.X, isAcc)
	case *ssa.Convert:
		return isInteger(b.Type()) && accumulates(b.X, isAcc)
	}
	return false
}

func isAppendCall(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return c
	}
	return nil
}

// check decides whether the result of the loop can depend on the order of iteration.
func (l *mapLoop) check() []string {
	h := l.next.Block()
	// variables carried by the loop
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range h.Preds {
			if l.in(p) {
				l.carried(phi, phi.Edges[i], map[ssa.Value]bool{}, p)
			}
		}
	}
	effects := false
	var blocks []*ssa.BasicBlock
	for b := range l.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				root := addrRoot(x.Addr)
				if a, ok := root.(*ssa.Alloc); ok && (l.in(a.Block()) || l.iterVar(a)) {
					continue
				}
				if _, ok := root.(*ssa.Alloc); !ok {
					effects = true
				}
				switch {
				case l.class(x.Val) == vInv && l.class(x.Addr) != vIter:
				case accumulates(x.Val, func(v ssa.Value) bool { return sameLoad(v, x.Addr) }):
				case isAppendCall(x.Val) != nil && sameLoad(isAppendCall(x.Val).Call.Args[0], x.Addr):
					l.sortedAfter(x, x.Addr, isAppendCall(x.Val))
				default:
					l.issue(x, "a variable is assigned a value that depends on the order of iteration")
				}
			case *ssa.MapUpdate:
				if mk, ok := x.Map.(*ssa.MakeMap); !ok || !l.in(mk.Block()) && !l.onlyInLoop(mk) {
					effects = true
				}
				if l.class(x.Key) == vKey || l.class(x.Value) == vInv {
					continue
				}
				if accumulates(x.Value, func(v ssa.Value) bool {
					if ex, ok := v.(*ssa.Extract); ok {
						v = ex.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					return ok && (lk.X == x.Map || sameAddr(lk.X, x.Map)) && sameVal(lk.Index, x.Key)
				}) {
					continue
				}
				l.issue(x, "a map entry is assigned a value that depends on the order of iteration")
			case *ssa.Send, *ssa.Select, *ssa.Go:
				l.issue(in, "communication inside an iteration over a map")
			case *ssa.Call:
				l.callInLoop(x)
			}
		}
	}
	// early exits
	for _, b := range blocks {
		for _, s := range b.Succs {
			if l.in(s) || b == h && s == exitOf(l) {
				continue
			}
			l.earlyExit(b, s, effects)
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			l.earlyReturn(b, ret, effects)
		}
	}
	return l.issues
}

// onlyInLoop: the map is local and not used anywhere but in the loop.
func (l *mapLoop) onlyInLoop(mk *ssa.MakeMap) bool {
	for _, in := range *mk.Referrers() {
		switch in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Lookup, *ssa.MapUpdate:
			if l.in(in.Block()) {
				continue
			}
		}
		return false
	}
	return true
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == y.Op && sameAddr(x.X, y.X)
}

// exitOf is the block the iteration continues at when the map is exhausted.
func exitOf(l *mapLoop) *ssa.BasicBlock {
	h := l.next.Block()
	for _, s := range h.Succs {
		if !l.in(s) {
			return s
		}
	}
	return nil
}

// carried checks a value that is assigned to a loop variable at the end of an iteration.
func (l *mapLoop) carried(phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool, from *ssa.BasicBlock) {
	if v == phi || seen[v] {
		return
	}
	seen[v] = true
	if l.class(v) == vInv {
		return
	}
	if p, ok := v.(*ssa.Phi); ok && l.in(p.Block()) {
		for i, x := range p.Edges {
			l.carried(phi, x, seen, p.Block().Preds[i])
		}
		return
	}
	if accumulates(v, func(x ssa.Value) bool {
		if x == phi {
			return true
		}
		// an accumulator that may have been updated conditionally before
		p, ok := x.(*ssa.Phi)
		return ok && l.in(p.Block()) && p != phi && dependsOnly(p, phi, map[ssa.Value]bool{})
	}) {
		return
	}
	if c := isAppendCall(v); c != nil {
		if c.Call.Args[0] == phi || isPhiOf(c.Call.Args[0], phi) {
			l.sortedAfter(c, phi, c)
			return
		}
	}
	// minimum or maximum
	if from != nil {
		for b := from; b != nil && l.in(b); b = b.Idom() {
			for _, p := range append([]*ssa.BasicBlock{b}, b.Preds...) {
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
					if c, ok := iff.Cond.(*ssa.BinOp); ok {
						switch c.Op {
						case token.LSS, token.LEQ, token.GTR, token.GEQ:
							if c.X == v && c.Y == phi || c.Y == v && c.X == phi {
								return
							}
						}
					}
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		in = l.next
	}
	l.issue(in, "a variable keeps a value that depends on the order of iteration")
}

func isPhiOf(v ssa.Value, phi *ssa.Phi) bool {
	p, ok := v.(*ssa.Phi)
	return ok && dependsOnly(p, phi, map[ssa.Value]bool{})
}

// dependsOnly: v merges phi, values accumulated on it, and appends to it.
func dependsOnly(v ssa.Value, phi *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == phi || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !dependsOnly(e, phi, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		c := isAppendCall(x)
		return c != nil && dependsOnly(c.Call.Args[0], phi, seen)
	}
	return accumulates(v, func(y ssa.Value) bool {
		_, isPhi := y.(*ssa.Phi)
		return y == phi || isPhi && dependsOnly(y, phi, seen)
	})
}

// keyFields lists the first-level fields of the appended element that contain the key of the iteration;
// whole means that the element itself does.
func (l *mapLoop) keyFields(app *ssa.Call) (fields map[string]bool, whole, isStruct bool) {
	fields = map[string]bool{}
	if len(app.Call.Args) < 2 {
		return
	}
	sl, ok := app.Call.Args[1].(*ssa.Slice)
	if !ok {
		return
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	var visit func(a *ssa.Alloc, top string)
	seen := map[*ssa.Alloc]bool{}
	visit = func(a *ssa.Alloc, top string) {
		if seen[a] {
			return
		}
		seen[a] = true
		for _, st := range l.storesInto(a) {
			name := top
			x := st.Addr
			for x != a {
				switch y := x.(type) {
				case *ssa.FieldAddr:
					name = structType(y.X.Type()).Field(y.Field).Name()
					x = y.X
				case *ssa.IndexAddr:
					x = y.X
				default:
					x = a
				}
			}
			if top != "" {
				name = top
			}
			if l.class(st.Val) == vKey {
				if name == "" {
					if st2 := structType(st.Val.Type()); st2 == nil || l.isKeyValue(st.Val) {
						whole = true
					}
				} else {
					fields[name] = true
				}
			}
			if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if b, ok := u.X.(*ssa.Alloc); ok {
					visit(b, name)
				}
			}
		}
	}
	visit(arr, "")
	if st := structType(derefType(arr.Type()).Underlying().(*types.Array).Elem()); st != nil {
		isStruct = true
	}
	return
}

func (l *mapLoop) isKeyValue(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	return ok && ex.Tuple == l.next && ex.Index == 1
}

// sortedAfter requires that a slice filled by the loop is sorted before it is used.
func (l *mapLoop) sortedAfter(at ssa.Instruction, acc ssa.Value, app *ssa.Call) {
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	var follow func(v ssa.Value, seen map[ssa.Value]bool)
	follow = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			if l.in(in.Block()) {
				// merges and appends inside the loop
				if p, ok := in.(*ssa.Phi); ok {
					follow(p, seen)
				}
				if c, ok := in.(*ssa.Call); ok && isAppendCall(c) != nil {
					follow(c, seen)
				}
				continue
			}
			switch x := in.(type) {
			case *ssa.Phi:
				follow(x, seen)
			case *ssa.ChangeType:
				follow(x, seen)
			case *ssa.MakeInterface:
				follow(x, seen)
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == v { // load of the variable
					follow(x, seen)
				} else {
					uses = append(uses, x)
				}
			case *ssa.Store:
				if x.Addr == v {
					continue // initialisation
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					follow(a, seen)
				} else {
					uses = append(uses, x)
				}
			case *ssa.MakeClosure, *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if ok, why := l.sortsArg(x, v, app); ok {
					sorts = append(sorts, x)
					if why != "" {
						l.issue(x, "%s", why)
					}
				} else if !isLogCall(x) {
					uses = append(uses, x)
				}
			default:
				uses = append(uses, in)
			}
		}
	}
	follow(acc, map[ssa.Value]bool{})
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			l.issue(at, "a slice is filled in the order of the iteration and used at %s without having been sorted", l.e.P.pos(u))
			return
		}
	}
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func isLogCall(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	return f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "log")
}

func sortName(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "sort":
		switch f.Name() {
		case "Slice", "SliceStable", "Sort", "Stable", "Strings", "Ints", "Float64s":
			return true
		}
	case "slices", "golang.org/x/exp/slices":
		return strings.HasPrefix(f.Name(), "Sort")
	}
	return false
}

// sortsArg reports whether the call sorts v (on all of its paths); why is set if the order is not total.
func (l *mapLoop) sortsArg(c *ssa.Call, v ssa.Value, app *ssa.Call) (bool, string) {
	f := c.Call.StaticCallee()
	if f == nil {
		return false, ""
	}
	if sortName(f) {
		if len(c.Call.Args) == 0 || c.Call.Args[0] != v {
			return false, ""
		}
		fields, whole, isStruct := l.keyFields(app)
		if len(c.Call.Args) > 1 && isStruct && !whole && len(fields) > 0 {
			if less := closureFn(c.Call.Args[1]); less != nil && !mentionsField(less, fields, map[*ssa.Function]bool{}) {
				return true, "the elements are sorted by something that is not known to be unique"
			}
		}
		return true, ""
	}
	if !isSource(f) || !l.e.P.InRepo(f) {
		return false, ""
	}
	for i, a := range c.Call.Args {
		if a != v || i >= len(f.Params) {
			continue
		}
		if ok, why := l.sortsParam(f, f.Params[i], app); ok {
			return true, why
		}
	}
	return false, ""
}

func (l *mapLoop) sortsParam(f *ssa.Function, p *ssa.Parameter, app *ssa.Call) (bool, string) {
	found, why := false, ""
	var follow func(v ssa.Value, seen map[ssa.Value]bool)
	follow = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.MakeInterface:
				follow(x, seen)
			case *ssa.ChangeType:
				follow(x, seen)
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					follow(a, seen)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					follow(x, seen)
				}
			case *ssa.Call:
				if ok, w := l.sortsArg(x, v, app); ok && onAllReturns(f, x) {
					found, why = true, w
				}
			}
		}
	}
	follow(p, map[ssa.Value]bool{})
	return found, why
}

func onAllReturns(f *ssa.Function, in ssa.Instruction) bool {
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !in.Block().Dominates(b) {
			return false
		}
	}
	return true
}

func closureFn(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return closureFn(x.X)
	}
	return nil
}

func mentionsField(f *ssa.Function, names map[string]bool, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if names[structType(x.X.Type()).Field(x.Field).Name()] {
					return true
				}
			case *ssa.Field:
				if names[structType(x.X.Type()).Field(x.Field).Name()] {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && isSource(g) && mentionsField(g, names, seen) {
					return true
				}
			}
		}
	}
	return false
}

// callInLoop checks what a call inside the loop may do.
func (l *mapLoop) callInLoop(c *ssa.Call) {
	f := c.Call.StaticCallee()
	args := c.Call.Args
	dep := false
	for _, a := range args {
		dep = dep || l.class(a) != vInv
	}
	if c.Call.IsInvoke() {
		n := c.Call.Method.Name()
		if dep && (strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Encode") || n == "Sum") {
			l.issue(c, "%s is called in the order of the iteration", n)
		}
		return
	}
	if f == nil {
		return
	}
	if !isSource(f) || !l.e.P.InRepo(f) {
		n := f.Name()
		if dep && !isLogCall(c) && (strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Encode") || strings.HasPrefix(n, "Fprint")) {
			// writing to an object created in this iteration is fine
			if len(args) > 0 && l.class(args[0]) == vInv {
				l.issue(c, "%s is called in the order of the iteration", n)
			}
		}
		return
	}
	// a function of the repository: look at what it does with its arguments
	sub := &mapLoop{e: l.e, fn: f, next: l.next, blocks: map[*ssa.BasicBlock]bool{}, memo: map[ssa.Value]valClass{}}
	for _, b := range f.Blocks {
		sub.blocks[b] = true
	}
	for i, p := range f.Params {
		if i < len(args) {
			sub.memo[p] = l.class(args[i])
		}
	}
	if depth[f] {
		return
	}
	depth[f] = true
	defer delete(depth, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				root := addrRoot(x.Addr)
				if _, ok := root.(*ssa.Alloc); ok {
					continue
				}
				if sub.class(x.Val) == vInv && sub.class(x.Addr) != vIter || accumulates(x.Val, func(v ssa.Value) bool { return sameLoad(v, x.Addr) }) || sub.class(root) != vInv {
					continue
				}
				sub.issue(x, "a variable is assigned a value that depends on the order of iteration")
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); ok {
					continue
				}
				if sub.class(x.Key) == vKey || sub.class(x.Value) == vInv || accumulates(x.Value, func(v ssa.Value) bool {
					if ex, ok := v.(*ssa.Extract); ok {
						v = ex.Tuple
					}
					lk, ok := v.(*ssa.Lookup)
					return ok && (lk.X == x.Map || sameAddr(lk.X, x.Map)) && sameVal(lk.Index, x.Key)
				}) {
					continue
				}
				sub.issue(x, "a map entry is assigned a value that depends on the order of iteration")
			case *ssa.Call:
				sub.callInLoop(x)
			}
		}
	}
	l.issues = append(l.issues, sub.issues...)
}

var depth = map[*ssa.Function]bool{}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (l *mapLoop) earlyExit(b, s *ssa.BasicBlock, effects bool) {
	// leaving the loop for a block that returns
	if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(s.Preds) == 1 {
		l.exit(b, ret, s, ret.Results, effects)
		return
	}
	if endsInPanic(s) {
		return
	}
	var vals []ssa.Value
	for _, in := range s.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			for i, q := range s.Preds {
				if q == b {
					vals = append(vals, p.Edges[i])
				}
			}
		}
	}
	// values of the iteration used after the loop
	for blk := range l.blocks {
		for _, in := range blk.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || l.class(v) == vInv {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.in(r.Block()) && s.Dominates(r.Block()) {
					if _, isPhi := r.(*ssa.Phi); !isPhi {
						vals = append(vals, v)
					}
				}
			}
		}
	}
	l.exit(b, b.Instrs[len(b.Instrs)-1], s, vals, effects)
}

func (l *mapLoop) earlyReturn(b *ssa.BasicBlock, ret *ssa.Return, effects bool) {
	l.exit(b, ret, b, ret.Results, effects)
}

func endsInPanic(b *ssa.BasicBlock) bool {
	for i := 0; b != nil && i < 8; i++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "log" && strings.HasPrefix(f.Name(), "Fatal") || f.Pkg.Pkg.Path() == "os" && f.Name() == "Exit") {
					return true
				}
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

func (l *mapLoop) exit(b *ssa.BasicBlock, at ssa.Instruction, to *ssa.BasicBlock, vals []ssa.Value, effects bool) {
	if effects {
		l.issue(at, "an iteration over a map that changes memory is left early")
		return
	}
	for _, v := range vals {
		if isErrorType(v.Type()) {
			continue
		}
		dep := l.class(v) != vInv
		if ins, ok := v.(ssa.Instruction); ok && !l.in(ins.Block()) && ins.Block() == to && to != b {
			// computed in the exit block
			for _, op := range ins.Operands(nil) {
				if *op != nil && l.class(*op) != vInv {
					dep = true
				}
			}
		}
		if !dep || isAccumulator(v) && false {
			continue
		}
		if l.thresholdExit(b, to) {
			continue
		}
		l.issue(at, "an iteration over a map is left early with a value that depends on the order of iteration")
		return
	}
}

func isAccumulator(ssa.Value) bool { return false }

// thresholdExit: the exit is taken only if the value of the current entry is at least a number that
// does not depend on the iteration (there is at most one such entry when votes are checked after
// every single vote).
func (l *mapLoop) thresholdExit(b, to *ssa.BasicBlock) bool {
	for x := b; x != nil && l.in(x); x = x.Idom() {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		big, small := c.X, c.Y
		pos := true
		switch c.Op {
		case token.GEQ, token.GTR:
		case token.LEQ, token.LSS:
			big, small = small, big
		default:
			continue
		}
		if l.isValue(small) && l.class(big) == vInv { // value < limit: the exit is the other branch
			big, small, pos = small, big, false
		}
		if !l.isValue(big) || l.class(small) != vInv {
			continue
		}
		br := x.Succs[0]
		if !pos {
			br = x.Succs[1]
		}
		if br == to || br == b || br.Dominates(b) || br.Dominates(to) {
			return true
		}
	}
	return false
}

func (l *mapLoop) isValue(v ssa.Value) bool {
	if c, ok := v.(*ssa.Convert); ok {
		v = c.X
	}
	if lk, ok := v.(*ssa.Lookup); ok && !lk.CommaOk {
		// the number of entries so far that have the same value: m[value]++ in the same iteration
		if mk, ok := lk.X.(*ssa.MakeMap); ok && l.onlyInLoop(mk) {
			for _, in := range *mk.Referrers() {
				u, ok := in.(*ssa.MapUpdate)
				if ok && !(sameVal(u.Key, lk.Index) && accumulates(u.Value, func(v ssa.Value) bool {
					y, ok := v.(*ssa.Lookup)
					return ok && y.X == mk && sameVal(y.Index, u.Key)
				})) {
					return false
				}
			}
			return true
		}
	}
	ex, ok := v.(*ssa.Extract)
	return ok && ex.Tuple == l.next && ex.Index == 2
}

// ---- sources of non-determinism ----

// nondetSource names the source of non-determinism a call is, or returns "".
func nondetSource(f *ssa.Function) string {
	if f == nil || f.Pkg == nil {
		return ""
	}
	p, n := f.Pkg.Pkg.Path(), f.Name()
	switch p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Local", "LoadLocation":
			return p + "." + n
		}
	case "os":
		if n != "IsNotExist" && n != "IsExist" && n != "Exit" {
			return p + "." + n
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "net", "net/http", "os/exec", "io/ioutil", "os/user", "runtime", "maps", "golang.org/x/exp/maps":
		return p + "." + n
	}
	return ""
}

// onlyLogged reports whether a value is used for log output only.
func onlyLogged(v ssa.Value, seen map[ssa.Value]bool) (ok bool, use ssa.Instruction) {
	if seen[v] || v.Referrers() == nil {
		return true, nil
	}
	seen[v] = true
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if isLogCall(x) {
				continue
			}
			f := x.Call.StaticCallee()
			if f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "time" || f.Pkg.Pkg.Path() == "fmt" || f.Pkg.Pkg.Path() == "os") {
				if ok, u := onlyLogged(x, seen); !ok {
					return false, u
				}
				continue
			}
			return false, x
		case *ssa.Defer:
			f := x.Call.StaticCallee()
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "log" {
				continue
			}
			return false, x
		case *ssa.Store:
			if x.Addr == v {
				continue
			}
			a, isA := addrRoot(x.Addr).(*ssa.Alloc)
			if !isA {
				return false, x
			}
			if ok, u := onlyLogged(a, seen); !ok {
				return false, u
			}
		case *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract, *ssa.Slice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Phi:
			if ok, u := onlyLogged(in.(ssa.Value), seen); !ok {
				return false, u
			}
		default:
			return false, in
		}
	}
	return true, nil
}

// sourcesOf collects the concrete values that may flow to v through interfaces, variables, slices,
// arrays, parameters and results within the module.
func sourcesOf(p *Program, v ssa.Value) []ssa.Value {
	var r []ssa.Value
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	stores := func(root ssa.Value) {
		var addr func(a ssa.Value)
		done := map[ssa.Value]bool{}
		addr = func(a ssa.Value) {
			if done[a] || a.Referrers() == nil {
				return
			}
			done[a] = true
			for _, in := range *a.Referrers() {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == a {
						visit(x.Val)
					}
				case *ssa.IndexAddr:
					if x.X == a {
						addr(x)
					}
				case *ssa.FieldAddr:
					addr(x)
				case *ssa.Slice:
					addr(x)
				}
			}
		}
		addr(root)
	}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			r = append(r, x.X)
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.TypeAssert:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.UnOp:
			visit(x.X)
		case *ssa.IndexAddr:
			visit(x.X)
		case *ssa.Index:
			visit(x.X)
		case *ssa.Slice:
			visit(x.X)
		case *ssa.Extract:
			visit(x.Tuple)
		case *ssa.Next:
			visit(x.Iter)
		case *ssa.Range:
			visit(x.X)
		case *ssa.Alloc:
			stores(x)
		case *ssa.FieldAddr:
			stores(x)
		case *ssa.MakeMap:
			for _, in := range *x.Referrers() {
				if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == x {
					visit(mu.Value)
					visit(mu.Key)
				}
			}
		case *ssa.Global:
			for _, f := range p.Functions() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && addrRoot(st.Addr) == x {
							visit(st.Val)
						}
					}
				}
			}
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q != x {
					continue
				}
				for _, f := range p.Functions() {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == x.Parent() && i < len(ci.Common().Args) {
								visit(ci.Common().Args[i])
							}
						}
					}
				}
			}
		case *ssa.Call:
			if c := isAppendCall(x); c != nil {
				for _, a := range c.Call.Args {
					visit(a)
				}
				return
			}
			if f := x.Call.StaticCallee(); f != nil && isSource(f) && p.InRepo(f) {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, y := range ret.Results {
							visit(y)
						}
					}
				}
				return
			}
			r = append(r, x)
		default:
			r = append(r, x)
		}
	}
	visit(v)
	return r
}
