package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of arithmetic code into algebraic normal forms (algval.go). Functions of the repository are
// inlined; loops become sums, products, comprehensions or powers by solving their recurrences.

type algErr struct{ msg string }

type aobj struct {
	v   val // content; nil for structs, whose fields are objects of their own
	typ types.Type
	of  *ptr // element of a list that this is the content of
	ofT types.Type
}

type astate struct {
	vals   map[ssa.Value]val
	heap   map[string]*aobj
	guards []*boolv
	writes map[string]bool // inputs that were modified
	scal   []string        // numbers used as scalars that may be out of range
	oob    []*oob          // positions that may be out of range
}

func (s *astate) clone() *astate {
	r := &astate{vals: map[ssa.Value]val{}, heap: map[string]*aobj{}, writes: map[string]bool{}}
	for k, v := range s.vals {
		r.vals[k] = v
	}
	for k, v := range s.heap {
		c := *v
		r.heap[k] = &c
	}
	for k := range s.writes {
		r.writes[k] = true
	}
	r.guards = append(r.guards, s.guards...)
	r.scal = append(r.scal, s.scal...)
	r.oob = append(r.oob, s.oob...)
	return r
}

// oob: the number must not be negative.
type oob struct {
	n     *num
	where string
}

func (x *alg) within(st *astate, where ssa.Instruction, ns ...*num) {
	useGuards(st)
	for _, n := range ns {
		if !ge0(n) {
			st.oob = append(st.oob, &oob{n, x.e.P.pos(where)})
		}
	}
}

// outOfRange are the positions of an outcome that are not known to be in range.
func (x *alg) outOfRange(st *astate) (r []*oob) {
	useGuards(st)
	for _, o := range st.oob {
		if n := renorm(o.n).(*num); !ge0(n) {
			r = append(r, &oob{n, o.where})
		}
	}
	return r
}

// aout is an outcome of a function.
type aout struct {
	st  *astate
	res []val
	pan bool
}

type alg struct {
	e      *Engine
	runs   int
	opaque map[string]bool // functions that are not entered: pure functions of their arguments
	nobj   int
	depth  int
	steps  int
	fns    map[*ssa.Function]bool
	kinds  map[string]string // underlying type -> kind
}

func newAlg(e *Engine, opaque ...string) *alg {
	x := &alg{e: e, opaque: map[string]bool{}, fns: map[*ssa.Function]bool{}, kinds: map[string]string{}}
	for _, o := range opaque {
		x.opaque[o] = true
	}
	orderNames = map[string]bool{}
	vars, _ := orderVars(e.P, "shlib/shcrypto")
	for n, v := range vars {
		if v.Cmp(blsOrder) == 0 {
			orderNames[n] = true
		}
	}
	if len(orderNames) == 0 {
		orderNames["shcrypto.order"] = true
	}
	for _, p := range e.P.Prog.AllPackages() {
		n := map[string]string{}
		switch p.Pkg.Path() {
		case "github.com/supranational/blst/bindings/go":
			n = map[string]string{"P1": "G1", "P1Affine": "G1", "P2": "G2", "P2Affine": "G2", "Fp12": "GT", "Scalar": "scalar"}
		case "math/big":
			n = map[string]string{"Int": "int"}
		case "bytes":
			n = map[string]string{"Buffer": "buffer"}
		}
		for t, k := range n {
			if o := p.Pkg.Scope().Lookup(t); o != nil {
				x.kinds[o.Type().Underlying().String()] = k
			}
		}
	}
	return x
}

func (x *alg) fail(f string, args ...interface{}) { panic(algErr{fmt.Sprintf(f, args...)}) }

// kind of a type that is a number or point.
func (x *alg) kind(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return ""
	}
	return x.kinds[t.Underlying().String()]
}

func (x *alg) newObj(st *astate, t types.Type, v val) string {
	x.nobj++
	id := "o" + strconv.Itoa(x.nobj)
	st.heap[id] = &aobj{v: v, typ: t}
	return id
}

func isInput(id string) bool { return strings.HasPrefix(id, "in:") || strings.HasPrefix(id, "el:") }

// symbolic makes the value of an input.
func (x *alg) symbolic(st *astate, t types.Type, id string) val {
	switch x.kind(t) {
	case "int":
		return numA(&atom{op: "in", s: id})
	case "scalar":
		return numA(&atom{op: "in", s: id})
	case "G1", "G2", "GT":
		return grpA(x.kind(t), &atom{op: "in", s: id})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			op := "in"
			if u.Info()&types.IsUnsigned != 0 {
				op = "nat"
			}
			return numA(&atom{op: op, s: id})
		}
		if u.Info()&types.IsBoolean != 0 {
			return &boolv{a: &atom{op: "in", s: id}}
		}
		return &atom{op: "in", s: id}
	case *types.Array:
		return whole(&atom{op: "in", s: id, args: []val{numI(u.Len())}}, numI(u.Len()))
	case *types.Slice:
		a := &atom{op: "in", s: id}
		o := "in:" + id + "[]"
		if st.heap[o] == nil {
			st.heap[o] = &aobj{v: whole(a, numA(&atom{op: "len", args: []val{a}})), typ: t}
		}
		return &sref{obj: o, lo: numI(0), hi: numA(&atom{op: "len", args: []val{a}})}
	case *types.Pointer:
		return &ptr{obj: "in:" + id + "*"}
	case *types.Struct:
		s := &strct{f: map[string]val{}}
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			s.names = append(s.names, n)
			s.f[n] = x.symbolic(st, u.Field(i).Type(), id+"."+n)
		}
		return s
	}
	return &atom{op: "in", s: id}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}
func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// zero is the zero value of a type.
func (x *alg) zero(t types.Type) val {
	switch k := x.kind(t); k {
	case "int", "scalar":
		n := numI(0)
		n.red = true
		return n
	case "G1", "G2":
		return newGrp(k)
	case "GT":
		return grpA("GT", &atom{op: "zeroGT"})
	case "buffer":
		return &seq{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return numI(0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return constBool(false)
		}
		return &atom{op: "const", s: "zero"}
	case *types.Array:
		return (&seq{}).plus(&seg{rep: x.zero(u.Elem()), n: numI(u.Len())})
	case *types.Struct:
		s := &strct{f: map[string]val{}}
		for i := 0; i < u.NumFields(); i++ {
			s.names = append(s.names, u.Field(i).Name())
			s.f[u.Field(i).Name()] = x.zero(u.Field(i).Type())
		}
		return s
	}
	return nilv{}
}

func (x *alg) isStruct(t types.Type) *types.Struct {
	if x.kind(t) != "" {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *alg) obj(st *astate, id string, t types.Type) *aobj {
	if o := st.heap[id]; o != nil {
		return o
	}
	if strings.HasPrefix(id, "in:") {
		o := &aobj{v: x.symbolic(st, t, strings.TrimPrefix(id, "in:")), typ: t}
		st.heap[id] = o
		return o
	}
	x.fail("unknown object %s", id)
	return nil
}

// load reads an object.
func (x *alg) load(st *astate, p val, t types.Type) val {
	switch p := p.(type) {
	case *ptr:
		if p.idx != nil {
			o := x.obj(st, p.obj, nil)
			s, ok := o.v.(*seq)
			if !ok {
				x.fail("element of %s", o.v.key())
			}
			return x.typed(st, at(s, p.idx, isByteT(t)), t)
		}
		if s := x.isStruct(t); s != nil {
			r := &strct{f: map[string]val{}}
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				r.names = append(r.names, n)
				r.f[n] = x.load(st, x.fieldPtr(st, p, n, s.Field(i).Type()), s.Field(i).Type())
			}
			return r
		}
		return x.obj(st, p.obj, t).v
	case nilv:
		x.fail("nil is dereferenced")
	}
	x.fail("load through %s", p.key())
	return nil
}

func (x *alg) fieldPtr(st *astate, p *ptr, n string, t types.Type) *ptr {
	if p.idx != nil {
		x.fail("field of an element")
	}
	return &ptr{obj: p.obj + "." + n}
}

// typed gives an element of a sequence its type.
func (x *alg) typed(st *astate, v val, t types.Type) val {
	switch e := v.(type) {
	case *box:
		id := "el:" + e.key()
		if st.heap[id] == nil {
			x.put(st, id, t.Underlying().(*types.Pointer).Elem(), e.v)
		}
		return &ptr{obj: id}
	case *atom:
		if e.op == "xorb" || e.op == "byte" {
			return numA(e)
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			b := &atom{op: e.op, s: e.s, args: e.args}
			return whole(b, numI(u.Len()))
		case *types.Slice:
			o := "in:" + e.key() + "[]"
			if st.heap[o] == nil {
				st.heap[o] = &aobj{v: whole(e, numA(&atom{op: "len", args: []val{e}})), typ: t}
			}
			return &sref{obj: o, lo: numI(0), hi: numA(&atom{op: "len", args: []val{e}})}
		case *types.Pointer:
			id := "in:" + e.key() + "*"
			if st.heap[id] == nil {
				switch k := x.kind(u.Elem()); k {
				case "int":
					st.heap[id] = &aobj{v: numA(e), typ: u.Elem()}
				case "G1", "G2", "GT":
					st.heap[id] = &aobj{v: grpA(k, e), typ: u.Elem()}
				default:
					if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
						// a pointer to a list: the element stands for the list
						st.heap[id] = &aobj{v: x.typed(st, e, sl), typ: u.Elem()}
					}
				}
			}
			return &ptr{obj: id}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return numA(e)
			}
		}
	}
	return v
}

// snapshot makes a value that does not refer to the heap.
func (x *alg) snapshot(st *astate, v val, t types.Type) val {
	switch p := v.(type) {
	case *ptr:
		if types.IsInterface(t) {
			return &atom{op: "any", s: p.key()}
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			x.fail("pointer in a list of %s", t)
		}
		c := x.load(st, p, pt.Elem())
		if a := contentAtom(c); a != nil && strings.HasPrefix(p.obj, "in:") {
			return a
		}
		return &box{x.snapshot(st, c, pt.Elem())}
	case *sref:
		if types.IsInterface(t) {
			return &atom{op: "any", s: p.key()}
		}
		o := x.obj(st, p.obj, t)
		return slice(o.v.(*seq), p.lo, p.hi)
	case *strct:
		if types.IsInterface(t) {
			return &atom{op: "any", s: p.key()}
		}
		s := x.isStruct(t)
		r := &strct{names: p.names, f: map[string]val{}}
		for i, n := range p.names {
			r.f[n] = x.snapshot(st, p.f[n], s.Field(i).Type())
		}
		return r
	}
	return v
}

// contentAtom: the element that the content of an object consists of.
func contentAtom(v val) *atom {
	switch c := v.(type) {
	case *num:
		if a := c.theAtom(); a != nil && a.op == "elem" {
			return a
		}
	case *grp:
		if len(c.m) == 1 {
			for _, t := range c.m {
				if t.c.isInt(1) && t.a.op == "elem" {
					return t.a
				}
			}
		}
	}
	return nil
}

// put stores a value into an object without tracking.
func (x *alg) put(st *astate, id string, t types.Type, v val) {
	if s := x.isStruct(t); s != nil {
		w, ok := v.(*strct)
		if !ok {
			x.fail("structure from %s", v.key())
		}
		for i := 0; i < s.NumFields(); i++ {
			x.put(st, id+"."+s.Field(i).Name(), s.Field(i).Type(), w.f[s.Field(i).Name()])
		}
		st.heap[id] = &aobj{typ: t}
		return
	}
	if sq, ok := v.(*seq); ok {
		if _, ok := t.Underlying().(*types.Slice); ok {
			o := id + "[]"
			st.heap[o] = &aobj{v: sq, typ: t}
			v = &sref{obj: o, lo: numI(0), hi: mkLen(sq)}
		}
	}
	st.heap[id] = &aobj{v: v, typ: t}
}

func (x *alg) store(st *astate, p val, t types.Type, v val) {
	pp, ok := p.(*ptr)
	if !ok {
		x.fail("store through %s", p.key())
	}
	if isInput(pp.obj) {
		st.writes[pp.obj] = true
	}
	if pp.idx != nil {
		o := x.obj(st, pp.obj, nil)
		s, ok := o.v.(*seq)
		if !ok {
			x.fail("store to an element of %s", o.v.key())
		}
		v = x.snapshot(st, v, t)
		if _, ok := v.(*seq); ok && !isByteT(t) {
			if a, ok := t.Underlying().(*types.Array); ok {
				_ = a
			}
		}
		o.v = splice(s, pp.idx, addN(pp.idx, numI(1)), litSeq(v))
		if o.of != nil {
			x.store(st, o.of, o.ofT, o.v)
		}
		return
	}
	x.put(st, pp.obj, t, v)
}

// content of a slice.
func (x *alg) seqOf(st *astate, v val) *seq {
	switch s := v.(type) {
	case *sref:
		o := x.obj(st, s.obj, nil)
		q, ok := o.v.(*seq)
		if !ok {
			x.fail("slice of %s", o.v.key())
		}
		return slice(q, s.lo, s.hi)
	case nilv:
		return &seq{}
	case *seq:
		return s
	case *atom:
		return whole(s, numA(&atom{op: "len", args: []val{s}}))
	}
	x.fail("not a sequence: %s", v.key())
	return nil
}
func (x *alg) newSlice(st *astate, t types.Type, q *seq) *sref {
	return &sref{obj: x.newObj(st, t, q), lo: numI(0), hi: mkLen(q)}
}
func (x *alg) writeRange(st *astate, d *sref, off, n *num, data *seq) {
	if isInput(d.obj) {
		st.writes[d.obj] = true
	}
	o := x.obj(st, d.obj, nil)
	lo := addN(d.lo, off)
	o.v = splice(o.v.(*seq), lo, addN(lo, n), data)
	if o.of != nil {
		x.store(st, o.of, o.ofT, o.v)
	}
}

func (x *alg) get(st *astate, v ssa.Value) val {
	if r := st.vals[v]; r != nil {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(c)
	case *ssa.Global:
		id := "in:global " + c.Pkg.Pkg.Name() + "." + c.Name()
		return &ptr{obj: id}
	case *ssa.Function:
		return &atom{op: "func", s: fnName(c)}
	case *ssa.Builtin:
		return &atom{op: "builtin", s: c.Name()}
	}
	x.fail("no value for %s in %s", v.Name(), fnName(v.Parent()))
	return nil
}

func (x *alg) constant(c *ssa.Const) val {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Pointer); ok {
			return nilv{}
		}
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Int:
		i, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return constNum(i)
	case constant.Bool:
		return constBool(constant.BoolVal(c.Value))
	case constant.String:
		var l []val
		for _, b := range []byte(constant.StringVal(c.Value)) {
			l = append(l, numI(int64(b)))
		}
		return litSeq(l...)
	}
	return &atom{op: "const", s: c.Value.ExactString()}
}

// useGuards makes the conditions of a path available to the comparison of numbers.
func useGuards(st *astate) {
	knownLow, knownMult = nil, nil
	var add func(g *boolv)
	add = func(g *boolv) {
		if g.a == nil {
			return
		}
		switch g.a.op {
		case "le":
			d := g.a.args[0].(*num)
			if g.neg {
				knownLow = append(knownLow, subN(d, numI(1)))
			} else {
				knownLow = append(knownLow, negN(d))
			}
		case "eq":
			d, ok := g.a.args[0].(*num)
			if z, ok2 := g.a.args[1].(*num); ok && ok2 && z.isInt(0) {
				if !g.neg {
					knownLow = append(knownLow, d, negN(d))
					for _, m := range d.m {
						// x - c*(x/c) = 0
						if len(m.f) != 1 || m.f[0].a.op != "div" || !m.f[0].e.isInt(1) {
							continue
						}
						c, _ := new(big.Int).SetString(m.f[0].a.s, 10)
						if c.CmpAbs(m.c) != 0 {
							continue
						}
						y := m.f[0].a.args[0].(*num)
						e := d
						if m.c.Sign() > 0 {
							e = negN(d)
						}
						if addN(e, scaleN(numA(m.f[0].a), c)).key() == y.key() {
							knownMult = append(knownMult, multiple{y, c})
						}
					}
				} else if s := d; len(s.m) > 0 {
					// not zero and not negative
					save := knownLow
					if ge0(d) {
						knownLow = append(save, subN(d, numI(1)))
					} else if ge0(negN(d)) {
						knownLow = append(save, subN(negN(d), numI(1)))
					}
				}
			}
		}
	}
	for _, g := range st.guards {
		add(g)
	}
}

// call interprets a function; the arguments are values in st.
func (x *alg) call(f *ssa.Function, args []val, st *astate, bind []val) []*aout {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 30 {
		x.fail("recursion in %s", fnName(f))
	}
	x.fns[f] = true
	saved := st.vals
	st = st.clone()
	st.vals = map[ssa.Value]val{}
	for i, p := range f.Params {
		st.vals[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		st.vals[fv] = bind[i]
	}
	fr := &aframe{x: x, fn: f}
	fr.block(f.Blocks[0], nil, st, nil)
	for _, o := range fr.outs {
		v := map[ssa.Value]val{}
		for k, w := range saved {
			v[k] = w
		}
		o.st.vals = v
	}
	return fr.outs
}

type aframe struct {
	x    *alg
	fn   *ssa.Function
	outs []*aout
}

// aloop collects how the body of a loop is left.
type aloop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	backs []*aedge
	exits []*aedge
}
type aedge struct {
	from, to *ssa.BasicBlock
	st       *astate
}

func isHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// enter goes to block b coming from block p.
func (fr *aframe) enter(p, b *ssa.BasicBlock, st *astate, lp *aloop) {
	if lp != nil {
		if b == lp.head {
			lp.backs = append(lp.backs, &aedge{p, b, st})
			return
		}
		if !lp.body[b] {
			lp.exits = append(lp.exits, &aedge{p, b, st})
			return
		}
	}
	if isHead(b) {
		fr.loop(p, b, st, lp)
		return
	}
	fr.block(b, p, st, lp)
}

// block interprets a block from its beginning.
func (fr *aframe) block(b, pred *ssa.BasicBlock, st *astate, lp *aloop) {
	fr.phis(b, pred, st)
	fr.from(b, 0, st, lp)
}
func (fr *aframe) phis(b, pred *ssa.BasicBlock, st *astate) {
	nv := map[ssa.Value]val{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				nv[phi] = fr.x.get(st, phi.Edges[i])
			}
		}
	}
	for k, v := range nv {
		st.vals[k] = v
	}
}

func (fr *aframe) from(b *ssa.BasicBlock, i int, st *astate, lp *aloop) {
	x := fr.x
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 200000 {
			x.fail("too complex")
		}
		useGuards(st)
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			outs := x.callInstr(st, in)
			if outs == nil {
				continue
			}
			for _, o := range outs {
				if o.pan {
					fr.outs = append(fr.outs, o)
					continue
				}
				var r val = nilv{}
				switch len(o.res) {
				case 0:
				case 1:
					r = o.res[0]
				default:
					r = &tuplev{o.res}
				}
				o.st.vals[in] = r
				if len(outs) == 1 {
					st = o.st
				} else {
					fr.from(b, i+1, o.st.clone(), lp)
				}
			}
			live := 0
			for _, o := range outs {
				if !o.pan {
					live++
				}
			}
			if len(outs) > 1 || live == 0 {
				return
			}
		case *ssa.If:
			c, ok := x.get(st, in.Cond).(*boolv)
			if !ok {
				x.fail("condition %s", x.get(st, in.Cond).key())
			}
			useGuards(st)
			c = renorm(c).(*boolv)
			c = x.decide(st, c)
			if c.c != nil {
				k := 1
				if *c.c {
					k = 0
				}
				fr.enter(b, b.Succs[k], st, lp)
				return
			}
			for k, s := range b.Succs {
				ns := st.clone()
				g := c
				if k == 1 {
					g = c.not()
				}
				ns.guards = append(ns.guards, g)
				fr.enter(b, s, ns, lp)
			}
			return
		case *ssa.Jump:
			fr.enter(b, b.Succs[0], st, lp)
			return
		case *ssa.Return:
			o := &aout{st: st}
			for _, r := range in.Results {
				o.res = append(o.res, x.get(st, r))
			}
			fr.outs = append(fr.outs, o)
			return
		case *ssa.Panic:
			fr.outs = append(fr.outs, &aout{st: st, pan: true})
			return
		default:
			x.instr(st, in)
		}
	}
}

// decide looks a condition up among those of the path.
func (x *alg) decide(st *astate, c *boolv) *boolv {
	if c.c != nil {
		return c
	}
	if c.a.op == "le" || c.a.op == "eq" {
		d := mkCmp(c.a.op, c.a.args)
		if c.neg {
			d = d.not()
		}
		if d.c != nil {
			return d
		}
		c = d
	}
	for _, g := range st.guards {
		if g.a != nil && g.a.key() == c.a.key() {
			return constBool(g.neg == c.neg)
		}
	}
	return c
}

func (x *alg) instr(st *astate, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		x.nobj++
		id := "o" + strconv.Itoa(x.nobj)
		x.put(st, id, t, x.zero(t))
		st.vals[v] = &ptr{obj: id}
	case *ssa.Store:
		x.store(st, x.get(st, v.Addr), v.Val.Type(), x.get(st, v.Val))
	case *ssa.UnOp:
		a := x.get(st, v.X)
		switch v.Op {
		case token.MUL:
			st.vals[v] = x.load(st, a, v.Type())
		case token.NOT:
			st.vals[v] = a.(*boolv).not()
		case token.SUB:
			n, ok := a.(*num)
			if !ok {
				x.fail("negation of %s", a.key())
			}
			st.vals[v] = negN(n)
		default:
			x.fail("operator %s", v.Op)
		}
	case *ssa.FieldAddr:
		p, ok := x.get(st, v.X).(*ptr)
		if !ok {
			x.fail("field of %s", x.get(st, v.X).key())
		}
		s := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if st.heap[p.obj] != nil && st.heap[p.obj].v != nil {
			// an element that was given as a value
			if w, ok := st.heap[p.obj].v.(*strct); ok {
				x.put(st, p.obj, v.X.Type().Underlying().(*types.Pointer).Elem(), w)
			}
		}
		st.vals[v] = x.fieldPtr(st, p, s.Field(v.Field).Name(), s.Field(v.Field).Type())
	case *ssa.Field:
		s, ok := x.get(st, v.X).(*strct)
		if !ok {
			x.fail("field of %s", x.get(st, v.X).key())
		}
		st.vals[v] = s.f[s.names[v.Field]]
	case *ssa.IndexAddr:
		i, ok := x.get(st, v.Index).(*num)
		if !ok {
			x.fail("index %s", x.get(st, v.Index).key())
		}
		switch a := x.get(st, v.X).(type) {
		case *ptr:
			l := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.within(st, v, i, subN(numI(l-1), i))
			st.vals[v] = &ptr{obj: a.obj, idx: i}
			x.obj(st, a.obj, v.X.Type().Underlying().(*types.Pointer).Elem())
		case *sref:
			x.within(st, v, i, subN(subN(subN(a.hi, a.lo), i), numI(1)))
			st.vals[v] = &ptr{obj: a.obj, idx: addN(a.lo, i)}
		default:
			x.fail("element of %s", a.key())
		}
	case *ssa.Index:
		s := x.seqOf(st, x.get(st, v.X))
		st.vals[v] = x.typed(st, at(s, x.get(st, v.Index).(*num), isByteT(v.Type())), v.Type())
	case *ssa.Slice:
		x.slice(st, v)
	case *ssa.MakeSlice:
		n, ok := x.get(st, v.Len).(*num)
		if !ok {
			x.fail("length %s", x.get(st, v.Len).key())
		}
		et := elemType(v.Type())
		st.vals[v] = &sref{obj: x.newObj(st, v.Type(), (&seq{}).plus(&seg{rep: x.zero(et), n: n})), lo: numI(0), hi: n, full: v.Cap == v.Len}
	case *ssa.MakeInterface:
		st.vals[v] = x.get(st, v.X)
	case *ssa.ChangeType:
		st.vals[v] = x.get(st, v.X)
	case *ssa.ChangeInterface:
		st.vals[v] = x.get(st, v.X)
	case *ssa.Convert:
		st.vals[v] = x.convert(st, x.get(st, v.X), v.X.Type(), v.Type())
	case *ssa.Extract:
		t, ok := x.get(st, v.Tuple).(*tuplev)
		if !ok {
			x.fail("result of %s", x.get(st, v.Tuple).key())
		}
		st.vals[v] = t.vs[v.Index]
	case *ssa.BinOp:
		useGuards(st)
		st.vals[v] = x.binop(st, v)
	case *ssa.MakeClosure:
		t := &tuplev{}
		for _, b := range v.Bindings {
			t.vs = append(t.vs, x.get(st, b))
		}
		x.nobj++
		id := "closure" + strconv.Itoa(x.nobj)
		st.heap[id] = &aobj{v: t}
		st.vals[v] = &ptr{obj: id}
	default:
		x.fail("%T is not supported (%s)", in, fnName(in.Parent()))
	}
}

func (x *alg) slice(st *astate, v *ssa.Slice) {
	var lo, hi *num
	if v.Low != nil {
		lo = x.get(st, v.Low).(*num)
	} else {
		lo = numI(0)
	}
	if v.High != nil {
		hi = x.get(st, v.High).(*num)
	}
	switch a := x.get(st, v.X).(type) {
	case *ptr:
		l := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.obj(st, a.obj, v.X.Type().Underlying().(*types.Pointer).Elem())
		if hi == nil {
			hi = numI(l)
		}
		x.within(st, v, lo, subN(hi, lo), subN(numI(l), hi))
		if a.idx != nil {
			// an array that is an element of a list: by value
			s := x.load(st, a, v.X.Type().Underlying().(*types.Pointer).Elem()).(*seq)
			id := x.newObj(st, nil, s)
			st.heap[id].of, st.heap[id].ofT = a, v.X.Type().Underlying().(*types.Pointer).Elem()
			st.vals[v] = &sref{obj: id, lo: lo, hi: hi, full: hi.isInt(l)}
			return
		}
		st.vals[v] = &sref{obj: a.obj, lo: lo, hi: hi, full: hi.isInt(l)}
	case *sref:
		full := a.full && v.High == nil
		if hi == nil {
			hi = subN(a.hi, a.lo)
		}
		x.within(st, v, lo, subN(hi, lo), subN(subN(a.hi, a.lo), hi))
		if v.Max != nil && x.get(st, v.Max).key() == hi.key() {
			full = true
		}
		st.vals[v] = &sref{obj: a.obj, lo: addN(a.lo, lo), hi: addN(a.lo, hi), full: full}
	case nilv:
		st.vals[v] = a
	case *seq:
		if hi == nil {
			hi = mkLen(a)
		}
		x.within(st, v, lo, subN(hi, lo), subN(mkLen(a), hi))
		st.vals[v] = slice(a, lo, hi)
	default:
		x.fail("slice of %s", a.key())
	}
}

func (x *alg) convert(st *astate, v val, from, to types.Type) val {
	switch n := v.(type) {
	case *num:
		b, ok := to.Underlying().(*types.Basic)
		if !ok {
			x.fail("conversion to %s", to)
		}
		if b.Info()&types.IsInteger == 0 {
			return &atom{op: "conv", s: b.Name(), args: []val{n}}
		}
		switch b.Kind() {
		case types.Uint8:
			useGuards(st)
			switch r := mkByte(n).(type) {
			case *atom:
				return numA(r)
			default:
				return r
			}
		case types.Int8, types.Int16, types.Uint16, types.Int32, types.Uint32:
			if c, ok := n.isConst(); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < 128 {
				return n
			}
			if fb, ok := from.Underlying().(*types.Basic); ok && fb.Kind() == types.Uint8 {
				return n
			}
			return numA(&atom{op: "trunc", s: b.Name(), args: []val{n}})
		}
		return n
	case *seq:
		// a string and its bytes
		if _, ok := to.Underlying().(*types.Slice); ok {
			return x.newSlice(st, to, n)
		}
		return n
	case *sref:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x.seqOf(st, n)
		}
		return n
	}
	return v
}

func (x *alg) isNil(st *astate, v val) *boolv {
	switch p := v.(type) {
	case nilv:
		return constBool(true)
	case errv:
		return constBool(false)
	case *cerr:
		return p.b.not()
	case *ptr:
		if p.nilIf != nil {
			return p.nilIf
		}
		if isInput(p.obj) {
			if strings.HasPrefix(p.obj, "el:") || p.idx != nil {
				return constBool(false)
			}
			return &boolv{a: &atom{op: "isnil", s: p.obj}}
		}
		return constBool(false)
	case *sref:
		if isInput(p.obj) {
			return &boolv{a: &atom{op: "isnil", s: p.obj}}
		}
		return constBool(false)
	case *box, *seq:
		return constBool(false)
	}
	return &boolv{a: &atom{op: "isnil", args: []val{v}}}
}

func (x *alg) binop(st *astate, v *ssa.BinOp) val {
	a, b := x.get(st, v.X), x.get(st, v.Y)
	switch v.Op {
	case token.EQL, token.NEQ:
		var r *boolv
		_, an := a.(nilv)
		_, bn := b.(nilv)
		switch {
		case bn:
			r = x.isNil(st, a)
		case an:
			r = x.isNil(st, b)
		default:
			if p, ok := a.(*boolv); ok {
				q := b.(*boolv)
				if q.c != nil {
					p, q = q, p
				}
				if p.c == nil {
					x.fail("comparison of conditions")
				}
				r = q
				if !*p.c {
					r = q.not()
				}
				break
			}
			if _, ok := a.(*num); !ok {
				a, b = x.snapshot(st, a, v.X.Type()), x.snapshot(st, b, v.Y.Type())
			}
			if t := cmpAtom(a); t != nil {
				r = cmpBool(t, b, "eq")
			} else if t := cmpAtom(b); t != nil {
				r = cmpBool(t, a, "eq")
			} else {
				r = mkCmp("eq", []val{a, b})
			}
		}
		if v.Op == token.NEQ {
			r = r.not()
		}
		return r
	}
	m, ok1 := a.(*num)
	n, ok2 := b.(*num)
	if !ok1 || !ok2 {
		if p, ok := a.(*boolv); ok {
			_ = p
			x.fail("operator %s of conditions", v.Op)
		}
		if v.Op == token.ADD {
			return cat(x.seqOf(st, a), x.seqOf(st, b))
		}
		return &atom{op: "op" + v.Op.String(), args: []val{a, b}}
	}
	switch v.Op {
	case token.ADD:
		return addN(m, n)
	case token.SUB:
		return subN(m, n)
	case token.MUL:
		return mulN(m, n)
	case token.QUO, token.REM, token.SHL, token.SHR, token.AND:
		c, ok := n.isConst()
		if ok && c.IsInt64() && c.Int64() >= 0 {
			switch v.Op {
			case token.SHL:
				return mulN(m, constNum(new(big.Int).Lsh(big.NewInt(1), uint(c.Int64()))))
			case token.SHR:
				c = new(big.Int).Lsh(big.NewInt(1), uint(c.Int64()))
			case token.AND:
				c = new(big.Int).Add(c, big.NewInt(1))
				if new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() != 0 {
					return numA(&atom{op: "and", args: []val{m, n}})
				}
			}
			if c.Sign() > 0 {
				q := mkDiv(m, c)
				if v.Op == token.REM || v.Op == token.AND {
					return subN(m, scaleN(q, c))
				}
				return q
			}
		}
		return numA(&atom{op: "op" + v.Op.String(), args: []val{m, n}})
	case token.XOR:
		switch r := xorByte([]val{m, n}).(type) {
		case *atom:
			return numA(r)
		default:
			return r
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if t := cmpAtom(m); t != nil {
			return cmpBool(t, n, v.Op.String())
		}
		if t := cmpAtom(n); t != nil {
			return cmpBool(t, m, map[token.Token]string{token.LSS: ">", token.LEQ: ">=", token.GTR: "<", token.GEQ: "<="}[v.Op])
		}
		return lessB(m, n, v.Op.String())
	}
	return numA(&atom{op: "op" + v.Op.String(), args: []val{m, n}})
}

func lessB(m, n *num, op string) *boolv {
	switch op {
	case "<":
		return mkCmp("le", []val{addN(subN(m, n), numI(1))})
	case "<=":
		return mkCmp("le", []val{subN(m, n)})
	case ">":
		return mkCmp("le", []val{addN(subN(n, m), numI(1))})
	}
	return mkCmp("le", []val{subN(n, m)})
}

// cmpAtom recognises the result of a three-way comparison.
func cmpAtom(v val) *atom {
	if n, ok := v.(*num); ok {
		if a := n.theAtom(); a != nil && a.op == "cmp" {
			return a
		}
	}
	return nil
}

// cmpBool: the result of comparing two numbers is itself compared with a small constant.
func cmpBool(t *atom, v val, op string) *boolv {
	n, ok := v.(*num)
	x, y := t.args[0].(*num), t.args[1].(*num)
	if ok {
		c, isC := n.isConst()
		if isC && c.IsInt64() {
			switch k := c.Int64(); {
			case k == 0 && op == "eq":
				return mkCmp("eq", []val{x, y})
			case k == 0:
				return lessB(x, y, op)
			case k == 1 && (op == "eq" || op == ">="), k == 0 && op == ">":
				return lessB(x, y, ">")
			case k == -1 && (op == "eq" || op == "<="):
				return lessB(x, y, "<")
			case k == 1 && op == "<":
				return lessB(x, y, "<=")
			case k == -1 && op == ">":
				return lessB(x, y, ">=")
			}
		}
	}
	return &boolv{a: &atom{op: "cmpwith", s: op, args: []val{t, v}}}
}

// ---- loops

var phiN int
var algDebug = os.Getenv("ALGDEBUG") != ""

type aphi struct {
	a    *atom
	name string
	init val
	set  func(st *astate, v val)
	next func(st *astate) val
	cf   val // closed form after k iterations
}

func sameContent(a, b *aobj) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.v == nil || b.v == nil {
		return a.v == b.v
	}
	return a.v.key() == b.v.key()
}

// havoc makes an unknown value like init.
func (x *alg) havoc(st *astate, init val, t types.Type) (val, *atom) {
	phiN++
	s := "p" + strconv.Itoa(phiN)
	switch v := init.(type) {
	case *num:
		a := &atom{op: "phi", s: s}
		n := numA(a)
		n.modq = v.modq
		n.red = v.red
		return n, a
	case *grp:
		a := &atom{op: "phi", s: s}
		return grpA(v.kind, a), a
	case *seq:
		if isArray(t) {
			a := &atom{op: "phi", s: s, args: []val{mkLen(v)}}
			return whole(a, mkLen(v)), a
		}
		a := &atom{op: "phi", s: s}
		return whole(a, atomLen(a)), a
	}
	a := &atom{op: "phi", s: s}
	if _, ok := init.(*boolv); ok {
		return &boolv{a: a}, a
	}
	return a, a
}

func (fr *aframe) loop(pred, head *ssa.BasicBlock, st0 *astate, outer *aloop) {
	x := fr.x
	n0 := x.nobj
	body := loopBody(head)
	fr.phis(head, pred, st0)
	mod := map[string]bool{}
	var lp *aloop
	var phis []*aphi
	var known map[string]bool
	for round := 0; ; round++ {
		if round > 6 {
			x.fail("loop in %s does not settle", fnName(fr.fn))
		}
		st := st0.clone()
		phis = nil
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phi2 := phi
			init := st0.vals[phi]
			p := &aphi{name: phi.Comment, init: init}
			edge := func(st *astate, from *ssa.BasicBlock) val {
				for i, q := range head.Preds {
					if q == from {
						return x.get(st, phi2.Edges[i])
					}
				}
				return nil
			}
			_ = edge
			switch v := init.(type) {
			case *ptr:
				pt, ok := phi.Type().Underlying().(*types.Pointer)
				if !ok || x.kind(pt.Elem()) == "" {
					x.fail("loop variable %s of type %s in %s", phi.Comment, phi.Type(), fnName(fr.fn))
				}
				c := x.load(st, v, pt.Elem())
				p.init = c
				h, a := x.havoc(st, c, pt.Elem())
				p.a = a
				id := x.newObj(st, pt.Elem(), h)
				if isInput(v.obj) {
					// writing to it would change the input in the first iteration
					id = "in:" + id
					st.heap[id] = &aobj{v: h, typ: pt.Elem()}
				}
				st.vals[phi] = &ptr{obj: id}
				p.next = func(s *astate) val { return x.load(s, s.vals[phi2], pt.Elem()) }
				p.set = func(s *astate, v val) {
					n := x.newObj(s, pt.Elem(), v)
					s.vals[phi2] = &ptr{obj: n}
				}
			case *sref, nilv:
				if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
					x.fail("loop variable %s of type %s in %s", phi.Comment, phi.Type(), fnName(fr.fn))
				}
				c := x.seqOf(st, v)
				p.init = c
				phiN++
				p.a = &atom{op: "phi", s: "p" + strconv.Itoa(phiN)}
				h := whole(p.a, numA(&atom{op: "len", args: []val{p.a}}))
				st.vals[phi] = x.newSlice(st, phi.Type(), h)
				if s, ok := v.(*sref); ok && isInput(s.obj) {
					o := "in:" + st.vals[phi].(*sref).obj
					st.heap[o] = &aobj{v: h, typ: phi.Type()}
					st.vals[phi].(*sref).obj = o
				}
				p.next = func(s *astate) val { return x.seqOf(s, s.vals[phi2]) }
				p.set = func(s *astate, v val) { s.vals[phi2] = x.newSlice(s, phi2.Type(), v.(*seq)) }
			default:
				h, a := x.havoc(st, init, phi.Type())
				p.a = a
				st.vals[phi] = h
				p.next = func(s *astate) val { return s.vals[phi2] }
				p.set = func(s *astate, v val) { s.vals[phi2] = v }
			}
			phis = append(phis, p)
		}
		var ids []string
		for id := range mod {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			id := id
			o := st.heap[id]
			if o == nil {
				continue
			}
			if sr, ok := o.v.(*sref); ok {
				// a variable that holds a list
				c := x.seqOf(st, sr)
				phiN++
				a := &atom{op: "phi", s: "p" + strconv.Itoa(phiN)}
				h := whole(a, numA(&atom{op: "len", args: []val{a}}))
				t := o.typ
				o.v = x.newSlice(st, t, h)
				phis = append(phis, &aphi{a: a, name: id, init: c,
					next: func(s *astate) val { return x.seqOf(s, s.heap[id].v) },
					set:  func(s *astate, v val) { s.heap[id].v = x.newSlice(s, t, v.(*seq)) }})
				continue
			}
			if _, ok := o.v.(*ptr); ok {
				x.fail("a pointer variable changes in a loop of %s", fnName(fr.fn))
			}
			if _, ok := o.v.(nilv); ok {
				// an empty list that grows
				if _, ok := o.typ.Underlying().(*types.Slice); ok {
					phiN++
					a := &atom{op: "phi", s: "p" + strconv.Itoa(phiN)}
					h := whole(a, numA(&atom{op: "len", args: []val{a}}))
					t := o.typ
					o.v = x.newSlice(st, t, h)
					phis = append(phis, &aphi{a: a, name: id, init: &seq{},
						next: func(s *astate) val { return x.seqOf(s, s.heap[id].v) },
						set:  func(s *astate, v val) { s.heap[id].v = x.newSlice(s, t, v.(*seq)) }})
					continue
				}
			}
			h, a := x.havoc(st, o.v, o.typ)
			phis = append(phis, &aphi{a: a, name: id, init: o.v,
				next: func(s *astate) val { return s.heap[id].v },
				set:  func(s *astate, v val) { s.heap[id].v = v }})
			o.v = h
		}
		known = map[string]bool{}
		for id := range st.heap {
			known[id] = true
		}
		lp = &aloop{head: head, body: body}
		nout := len(fr.outs)
		fr.from(head, 0, st.clone(), lp)
		if len(fr.outs) != nout {
			// panics inside of the body are left out: they do not return
			fr.outs = fr.outs[:nout]
		}
		changed := false
		for _, b := range lp.backs {
			fr.phis(head, b.from, b.st)
			for id, o := range b.st.heap {
				if known[id] && !mod[id] && st0.heap[id] != nil && !sameContent(o, st.heap[id]) {
					mod[id] = true
					changed = true
				}
				if strings.HasPrefix(id, "in:") && st0.heap[id] == nil && o.typ != nil && o.v != nil && b.st.writes[id] {
					// an input that is used in the loop for the first time
					x.obj(st0, id, o.typ)
					mod[id] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	if len(lp.backs) == 0 {
		for _, e := range lp.exits {
			fr.enter(e.from, e.to, e.st, outer)
		}
		return
	}
	base := len(st0.guards)
	useGuards(st0)
	k := freshIter(nil)
	kn := numA(k)
	cf := map[string]val{}
	// what is drawn in the body is drawn anew in every iteration
	fresh := func(a *atom) {
		if a.op != "random" && a.op != "err" && a.op != "nat" || len(a.s) < 2 {
			return
		}
		if i, err := strconv.Atoi(a.s[1:]); err != nil || i <= n0 || cf[a.key()] != nil {
			return
		}
		cf[a.key()] = &atom{op: a.op, s: a.s, args: append(append([]val{}, a.args...), kn)}
	}
	for _, es := range [][]*aedge{lp.backs, lp.exits} {
		for _, e := range es {
			for _, v := range e.st.vals {
				eachAtom(v, fresh)
			}
			for _, o := range e.st.heap {
				if o.v != nil {
					eachAtom(o.v, fresh)
				}
			}
			for _, g := range e.st.guards[base:] {
				eachAtom(g, fresh)
			}
		}
	}
	// index variables first
	solve := func(p *aphi) bool {
		var nexts []val
		for _, b := range lp.backs {
			nexts = append(nexts, asub(p.next(b.st), cf))
		}
		v := x.recurrence(p, nexts, lp, base, k, cf, phis)
		if v == nil {
			return false
		}
		p.cf = v
		cf[p.a.key()] = v
		return true
	}
	for progress := true; progress; {
		progress = false
		for _, p := range phis {
			if p.cf == nil && solve(p) {
				progress = true
			}
		}
	}
	// how often?
	var n *num
	for _, e := range lp.exits {
		if e.from != head && !x.onlyExit(lp) {
			continue
		}
		var gs []*boolv
		for _, g := range e.st.guards[base:] {
			gs = append(gs, asub(g, cf).(*boolv))
		}
		if t := trips(gs, k); t != nil {
			n = t
			break
		}
	}
	powered := n == nil && x.binaryPower(phis, lp, base, cf)
	// the conditions under which iterations go on
	var cont *boolv
	if n != nil {
		var alts [][]*boolv
		for _, b := range lp.backs {
			var gs []*boolv
			for _, g := range b.st.guards[base:] {
				g = asub(g, cf).(*boolv)
				if isTrip(g, k, n) {
					continue
				}
				gs = append(gs, g)
			}
			alts = append(alts, gs)
		}
		none := constBool(true)
		for _, alt := range resolve(alts) {
			c := constBool(true)
			for _, g := range alt {
				c = andB(c, g)
			}
			none = andB(none, c.not())
		}
		cont = none.not()
	}
	var exitGs [][]*boolv
	for _, e := range lp.exits {
		var gs []*boolv
		for _, g := range e.st.guards[base:] {
			gs = append(gs, asub(g, cf).(*boolv))
		}
		exitGs = append(exitGs, gs)
	}
	if n != nil {
		varHi[k.s] = subN(n, numI(1))
	}
	oobs := st0.oob[:len(st0.oob):len(st0.oob)]
	for _, b := range lp.backs {
		gs := st0.guards[:base:base]
		for _, g := range b.st.guards[base:] {
			gs = append(gs, asub(g, cf).(*boolv))
		}
		useGuards(&astate{guards: gs})
		for _, o := range b.st.oob[len(st0.oob):] {
			if n := asub(o.n, cf).(*num); !ge0(n) {
				oobs = append(oobs, &oob{n, o.where})
			}
		}
	}
	for i, e := range lp.exits {
		s := e.st
		useGuards(st0)
		at := map[string]val{}
		gs := exitGs[i]
		normal := false
		for _, h := range gs {
			if t := trips([]*boolv{h}, k); n != nil && t != nil && t.key() == n.key() {
				normal = true
			}
		}
		if powered {
			gs = nil // halving a number ends
		}
		kk := kn
		pre := s.guards[:base:base]
		if n != nil && normal {
			kk = n
			if cont.c == nil {
				pre = append(pre, allB(k, numI(0), n, cont))
			}
		} else {
			j := freshIter(nil)
			if n != nil {
				varHi[j.s] = subN(n, numI(1))
			}
			if cont != nil && cont.c == nil {
				pre = append(pre, allB(j, numI(0), kn, asub(cont, map[string]val{k.key(): numA(j)}).(*boolv)))
			}
		}
		for key, v := range cf {
			at[key] = asub(v, map[string]val{k.key(): kk})
		}
		rep := func(v val) val { return asub(asub(v, at), map[string]val{k.key(): kk}) }
		ns := s.clone()
		ns.guards = pre
		for _, g := range gs {
			if t := trips([]*boolv{g}, k); normal && t != nil && t.key() == n.key() {
				continue
			}
			h := rep(g).(*boolv)
			if h.c != nil && *h.c {
				continue
			}
			ns.guards = append(ns.guards, h)
		}
		useGuards(&astate{guards: pre})
		for v, w := range ns.vals {
			ns.vals[v] = rep(w)
		}
		for _, o := range ns.heap {
			if o.v != nil {
				o.v = rep(o.v)
			}
		}
		for _, b := range lp.backs {
			for w := range b.st.writes {
				ns.writes[w] = true
			}
			for _, sc := range b.st.scal {
				// a loop variable that starts in range and is reduced in every iteration is in range
				in := false
				for _, p := range phis {
					if p.a != nil && strings.HasPrefix(sc, p.a.key()+" in ") && inRange(p.init) {
						in = true
						for _, bb := range lp.backs {
							if n, ok := p.next(bb.st).(*num); !ok || !n.red {
								in = false
							}
						}
					}
				}
				if !in {
					ns.scal = append(ns.scal, sc)
				}
			}
		}
		ns.oob = oobs
		for _, o := range s.oob[len(st0.oob):] {
			if n := rep(o.n).(*num); !ge0(n) {
				ns.oob = append(ns.oob, &oob{n, o.where})
			}
		}
		// values that only later code could not tell from unsolved ones stay unknown atoms
		fr.enter(e.from, e.to, ns, outer)
	}
}

// resolve merges alternatives that differ only in one condition and its negation.
func resolve(alts [][]*boolv) [][]*boolv {
	for again := true; again; {
		again = false
	search:
		for i := range alts {
			for j := range alts[:i] {
				if m, ok := resolve2(alts[i], alts[j]); ok {
					alts[j] = m
					alts = append(alts[:i:i], alts[i+1:]...)
					again = true
					break search
				}
			}
		}
	}
	return alts
}
func resolve2(a, b []*boolv) (r []*boolv, ok bool) {
	in := func(g *boolv, l []*boolv) bool {
		for _, h := range l {
			if h.key() == g.key() {
				return true
			}
		}
		return false
	}
	var da, db []*boolv
	for _, g := range a {
		if !in(g, b) {
			da = append(da, g)
		} else {
			r = append(r, g)
		}
	}
	for _, g := range b {
		if !in(g, a) {
			db = append(db, g)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		return r, true // one implies the other
	}
	if len(da) == 1 && len(db) == 1 && da[0].key() == db[0].not().key() {
		return r, true
	}
	return nil, false
}

func andB(a, b *boolv) *boolv {
	if a.c != nil {
		if *a.c {
			return b
		}
		return a
	}
	if b.c != nil {
		return andB(b, a)
	}
	x := &atom{op: "and"}
	for _, y := range []*boolv{a, b} {
		if y.a != nil && y.a.op == "and" && !y.neg {
			x.args = append(x.args, y.a.args...)
		} else {
			x.args = append(x.args, y)
		}
	}
	sort.Slice(x.args, func(i, j int) bool { return x.args[i].key() < x.args[j].key() })
	return &boolv{a: x}
}

func (x *alg) onlyExit(lp *aloop) bool { return len(lp.exits) == 1 }

// linear returns c and a if d = a + c*k.
func linear(d *num, k *atom) (*big.Int, *num) {
	m := d.m[k.key()]
	if m == nil {
		return nil, nil
	}
	a := subN(d, scaleN(numA(k), m.c))
	if amentions(a, k) {
		return nil, nil
	}
	return m.c, a
}

// trips returns the number of iterations if these are the conditions of leaving the loop.
func trips(gs []*boolv, k *atom) *num {
	if len(gs) != 1 || gs[0].a == nil {
		return nil
	}
	g := gs[0]
	one := big.NewInt(1)
	switch g.a.op {
	case "le":
		c, a := linear(g.a.args[0].(*num), k)
		if c == nil {
			return nil
		}
		// it is left when !(a + c*k <= 0) or when a + c*k <= 0
		if g.neg && c.Sign() > 0 {
			// goes on while k <= -a/c
			return clamp(addN(mkDiv(negN(a), c), numI(1)))
		}
		if !g.neg && c.Sign() < 0 && c.CmpAbs(one) == 0 {
			// goes on while a - k >= 1
			return clamp(a)
		}
		if !g.neg && c.Sign() < 0 {
			d := new(big.Int).Neg(c)
			return clamp(mkDiv(addN(a, constNum(new(big.Int).Sub(d, one))), d))
		}
	case "eq":
		d, ok := g.a.args[0].(*num)
		if !ok || g.neg {
			return nil
		}
		if z, ok := g.a.args[1].(*num); !ok || !z.isInt(0) {
			return nil
		}
		c, a := linear(d, k)
		if c != nil && c.CmpAbs(one) == 0 {
			if c.Sign() > 0 {
				return clamp(negN(a))
			}
			return clamp(a)
		}
	}
	return nil
}
func clamp(n *num) *num {
	if c, ok := n.isConst(); ok && c.Sign() < 0 {
		return numI(0)
	}
	return n
}
func isTrip(g *boolv, k *atom, n *num) bool {
	t := trips([]*boolv{g.not()}, k)
	return t != nil && t.key() == n.key()
}

// recurrence finds the value after k iterations.
func (x *alg) recurrence(p *aphi, nexts []val, lp *aloop, base int, k *atom, cf map[string]val, phis []*aphi) val {
	kn := numA(k)
	a := p.a
	free := func(v val) bool { // no unknown left but p itself
		for _, q := range phis {
			if q != p && q.cf == nil && amentions(v, q.a) {
				return false
			}
		}
		return true
	}
	var uniq []val
	var which []int
	for i, nx := range nexts {
		if !free(nx) {
			return nil
		}
		dup := false
		for _, u := range uniq {
			if u.key() == nx.key() {
				dup = true
			}
		}
		if !dup {
			uniq = append(uniq, nx)
			which = append(which, i)
		}
	}
	var self val
	switch p.init.(type) {
	case *num:
		self = numA(a)
	case *grp:
		self = grpA(p.init.(*grp).kind, a)
	}
	// some iterations leave it as it is
	cond := constBool(true)
	if len(uniq) == 2 && self != nil {
		s := -1
		for i, u := range uniq {
			if u.key() == self.key() {
				s = i
			}
		}
		if s < 0 {
			return nil
		}
		// exactly one way through the body changes it
		cnt := 0
		for _, nx := range nexts {
			if nx.key() != self.key() {
				cnt++
			}
		}
		if cnt != 1 {
			return nil
		}
		var skip map[string]bool
		for i, nx := range nexts {
			if nx.key() == self.key() {
				m := map[string]bool{}
				for _, g := range lp.backs[i].st.guards[base:] {
					m[g.key()] = true
				}
				if skip == nil {
					skip = m
				} else {
					for g := range skip {
						if !m[g] {
							delete(skip, g)
						}
					}
				}
			}
		}
		w := which[1-s]
		for _, g := range lp.backs[w].st.guards[base:] {
			if !skip[g.key()] {
				h := asub(g, cf).(*boolv)
				if !free(h) {
					return nil
				}
				cond = andB(cond, h)
			}
		}
		uniq = []val{uniq[1-s]}
	}
	if len(uniq) != 1 {
		return nil
	}
	nx := uniq[0]
	j := freshIter(subN(kn, numI(1)))
	atJ := func(v val) val { return asub(v, map[string]val{k.key(): numA(j)}) }
	zero := numI(0)
	switch init := p.init.(type) {
	case *num:
		n := nx.(*num)
		if n.key() == self.key() {
			return init
		}
		d := subN(n, self.(*num))
		var r *num
		if !amentions(d, a) {
			if strings.Contains(cond.key(), "bit(") {
				return nil // binary representations are not summed up
			}
			r = addN(init, sumN(j, zero, kn, atJ(mulN(d, indN(cond, d.key()))).(*num)))
		} else {
			// n = self*t + c
			c := asub(n, map[string]val{a.key(): zero}).(*num)
			t := subN(asub(n, map[string]val{a.key(): numI(1)}).(*num), c)
			if subN(addN(mulN(t, self.(*num)), c), n).key() != "0" {
				return nil
			}
			switch {
			case len(c.m) == 0:
				if cond.c != nil && !amentions(t, k) {
					r = mulN(init, powN0(t, kn))
				} else {
					r = mulN(init, prodN(j, zero, kn, atJ(t).(*num), atJ(cond)))
				}
			case cond.c != nil && !amentions(t, k):
				e := subN(subN(kn, numI(1)), numA(j))
				r = addN(mulN(init, powN0(t, kn)), sumN(j, zero, kn, mulN(atJ(c).(*num), powN0(t, e))))
			default:
				return nil
			}
		}
		r2 := *r
		r2.modq = r.modq || n.modq
		r2.red = inRange(init) && n.red
		r2.k = ""
		return &r2
	case *grp:
		g := nx.(*grp)
		if g.key() == self.key() {
			return init
		}
		t := g.m[a.key()]
		if t == nil || cond.c == nil {
			return nil
		}
		c := addG(g, scaleG(grpA(g.kind, a), negN(t.c)))
		if amentions(c, a) || amentions(t.c, a) || amentions(t.c, k) {
			return nil
		}
		r := scaleG(init, powN0(t.c, kn))
		b := atJ(c).(*grp)
		if !t.c.isInt(1) {
			b = scaleG(b, powN0(t.c, subN(subN(kn, numI(1)), numA(j))))
		}
		s := newGrp(g.kind)
		s.addSum(j, zero, kn, b)
		return addG(r, s)
	case *seq:
		s := nx.(*seq)
		if cond.c == nil || len(s.segs) == 0 {
			return nil
		}
		f := s.segs[0]
		l := s.segs[len(s.segs)-1]
		L := atomLen(a)
		if f.base != nil && f.base.key() == a.key() && f.lo.isInt(0) && f.hi.key() == L.key() {
			rest := &seq{segs: s.segs[1:]}
			if amentions(rest, a) {
				return nil
			}
			if len(rest.segs) == 0 {
				return init
			}
			return cat(init, comp(j, kn, atJ(rest).(*seq)))
		}
		// a part is replaced: [0, lo) data [hi, L)
		mid := s.segs
		lo, hi := zero, L
		if f.base != nil && f.base.key() == a.key() && f.lo.isInt(0) {
			lo = f.hi
			mid = mid[1:]
		}
		if l != f && l.base != nil && l.base.key() == a.key() && l.hi.key() == L.key() {
			hi = l.lo
			mid = mid[:len(mid)-1]
		} else if l == f && l.base != nil && l.base.key() == a.key() {
			return nil
		}
		data := (&seq{segs: mid})
		if amentions(data, a) {
			return nil
		}
		if nextLo := asub(lo, map[string]val{k.key(): addN(kn, numI(1))}); nextLo.key() != hi.key() {
			// the last piece reaches the end of the list in every iteration: cannot be
			return nil
		}
		first := asub(lo, map[string]val{k.key(): zero}).(*num)
		return splice(init, first, lo, comp(j, kn, atJ(data).(*seq)))
	}
	return nil
}

// indN is one where a condition holds and zero elsewhere; what it is multiplied with is known.
func indN(cond *boolv, with string) *num {
	if cond.c != nil {
		if *cond.c {
			return numI(1)
		}
		return numI(0)
	}
	parts := []val{cond}
	if cond.a.op == "and" && !cond.neg {
		parts = cond.a.args
	}
	r := constBool(true)
	for _, p := range parts {
		b := p.(*boolv)
		if b.a != nil && b.a.op == "isnil" {
			continue // elements are not nil
		}
		if b.a != nil && b.neg && b.a.op == "eq" && with != "" && len(b.a.args) == 2 {
			// leaving out zeros changes nothing
			z := b.a.args[0]
			if n, ok := z.(*num); ok {
				if a := n.theAtom(); a != nil && a.op == "cmp" && len(a.args) == 2 {
					if y, ok := a.args[1].(*num); ok && y.isInt(0) {
						z = a.args[0]
					}
				}
			}
			if y, ok := b.a.args[1].(*num); ok && y.isInt(0) && z.key() == with {
				continue
			}
		}
		r = andB(r, b)
	}
	if r.c != nil {
		return indN(r, with)
	}
	return numA(&atom{op: "ind", args: []val{r}})
}

// powN0 is a power where zero to the power of zero is one.
func powN0(x, e *num) *num {
	if len(x.m) == 0 {
		r := newNum()
		r.add1(&mono{big.NewInt(1), []factor{{&atom{op: "poly", args: []val{x}}, e}}})
		return r
	}
	return powN(x, e)
}

// binaryPower solves loops that compute a multiple of a point by halving a number.
func (x *alg) binaryPower(phis []*aphi, lp *aloop, base int, cf map[string]val) (solved bool) {
	for _, pe := range phis {
		init, ok := pe.init.(*num)
		if !ok {
			continue
		}
		half := numA(&atom{op: "div", s: "2", args: []val{numA(pe.a)}})
		good := ge0(init)
		exp := init
		for _, b := range lp.backs {
			if algDebug {
				fmt.Println("power:", pe.next(b.st).key(), "want", half.key(), "guards:")
				for _, g := range b.st.guards[base:] {
					fmt.Println("    ", g.key())
				}
				for _, q := range phis {
					fmt.Println("    ", q.name, q.a.key(), "->", q.next(b.st).key())
				}
			}
			if pe.next(b.st).key() != half.key() {
				good = false
			}
		}
		// it is left exactly if nothing remains
		for _, e := range lp.exits {
			gs := e.st.guards[base:]
			if algDebug {
				fmt.Println("power exit:", gs, good, init.key())
				for _, g := range gs {
					fmt.Println("    ", g.key())
				}
			}
			if len(gs) != 1 || !(gs[0].key() == mkCmp("le", []val{numA(pe.a)}).key() || gs[0].key() == mkCmp("eq", []val{numA(pe.a), numI(0)}).key()) {
				good = false
				if len(gs) == 1 {
					// stopping earlier leaves out the highest bits
					for c := int64(1); c < 4; c++ {
						if gs[0].key() == mkCmp("le", []val{subN(numA(pe.a), numI(c))}).key() {
							good, exp = ge0(init), numA(&atom{op: "lowbits", s: strconv.FormatInt(c, 10), args: []val{init}})
						}
					}
				}
			}
		}
		if !good {
			continue
		}
		odd := subN(numA(pe.a), scaleN(half, big.NewInt(2)))
		for _, pb := range phis {
			bi, ok := pb.init.(*grp)
			if !ok {
				continue
			}
			self := grpA(bi.kind, pb.a)
			dbl := true
			for _, b := range lp.backs {
				if pb.next(b.st).key() != scaleG(self, numI(2)).key() {
					dbl = false
				}
			}
			if !dbl {
				continue
			}
			for _, pr := range phis {
				ri, ok := pr.init.(*grp)
				if !ok || pr == pb {
					continue
				}
				rs := grpA(ri.kind, pr.a)
				good := true
				for _, b := range lp.backs {
					nx := pr.next(b.st)
					isOdd := 0
					for _, g := range b.st.guards[base:] {
						switch g.key() {
						case mkCmp("eq", []val{odd, numI(1)}).key(), mkCmp("eq", []val{odd, numI(0)}).not().key():
							isOdd = 1
						case mkCmp("eq", []val{odd, numI(1)}).not().key(), mkCmp("eq", []val{odd, numI(0)}).key():
							isOdd = -1
						}
					}
					if !(isOdd == 1 && nx.key() == addG(rs, self).key() || isOdd == -1 && nx.key() == rs.key()) {
						good = false
					}
				}
				if good {
					cf[pr.a.key()] = addG(ri, scaleG(bi, exp))
					pr.cf = cf[pr.a.key()]
					solved = true
				}
			}
		}
	}
	return solved
}

// algFunc interprets a function with symbolic arguments.
func (x *alg) algFunc(f *ssa.Function) (outs []*aout, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(algErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	st := &astate{vals: map[ssa.Value]val{}, heap: map[string]*aobj{}, writes: map[string]bool{}}
	var args []val
	for _, p := range f.Params {
		args = append(args, x.symbolic(st, p.Type(), p.Name()))
	}
	return x.call(f, args, st, nil), ""
}

// show renders a result with what it points to.
func (x *alg) show(st *astate, v val, t types.Type) string {
	switch p := v.(type) {
	case *ptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && p.idx == nil {
			return "&" + x.show(st, x.load(st, p, pt.Elem()), pt.Elem())
		}
	case *sref:
		return x.seqOf(st, p).key()
	case *strct:
		s := x.isStruct(t)
		r := "{"
		for i, n := range p.names {
			r += n + ": " + x.show(st, p.f[n], s.Field(i).Type()) + "; "
		}
		return r + "}"
	}
	return v.key()
}

// dumpAlg prints the outcomes of functions (development).
func dumpAlg(e *Engine, names string, opaque string) {
	for _, n := range strings.Fields(names) {
		f := e.P.Func(n)
		if f == nil {
			fmt.Println("no function", n)
			continue
		}
		x := newAlg(e, strings.Fields(opaque)...)
		outs, err := x.algFunc(f)
		fmt.Println("==", n, "steps", x.steps)
		if err != "" {
			fmt.Println("   ERROR:", err)
		}
		for _, o := range outs {
			if o.pan {
				fmt.Print("   panic")
			} else {
				fmt.Print("   return")
			}
			for i, r := range o.res {
				useGuards(o.st)
				fmt.Print("\n        ", x.show(o.st, r, f.Signature.Results().At(i).Type()))
			}
			fmt.Println()
			for _, g := range o.st.guards {
				fmt.Println("      if", g.key())
			}
			for w := range o.st.writes {
				fmt.Println("      writes", w)
			}
			for _, b := range x.outOfRange(o.st) {
				fmt.Println("      out of range if negative:", b.n.key(), b.where)
			}
			for _, s := range o.st.scal {
				fmt.Println("      unreduced", s)
			}
		}
	}
}

func isArray(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Array)
	return ok
}
