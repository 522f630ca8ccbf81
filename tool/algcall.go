package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What calls do to algebraic values: the functions of math/big, blst, sha3 and a few others.

// callInstr returns nil if the call was simple; then its value is set.
func (x *alg) callInstr(st *astate, in *ssa.Call) []*aout {
	c := in.Common()
	var args []val
	for _, a := range c.Args {
		args = append(args, x.get(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		st.vals[in] = x.builtin(st, b.Name(), c, args)
		return nil
	}
	callee := c.StaticCallee()
	var bind []val
	if callee == nil && !c.IsInvoke() {
		switch f := x.get(st, c.Value).(type) {
		case *ptr:
			if o := st.heap[f.obj]; o != nil {
				if t, ok := o.v.(*tuplev); ok {
					if mc, ok := c.Value.(*ssa.MakeClosure); ok {
						callee = mc.Fn.(*ssa.Function)
						bind = t.vs
					}
				}
			}
		case *atom:
			if f.op == "func" {
				callee = x.e.P.Func(f.s)
			}
		}
		if callee == nil {
			if isErrorT(in.Type()) {
				st.vals[in] = errv{"dynamic"}
				return nil
			}
			x.fail("dynamic call in %s", fnName(in.Parent()))
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		bind = x.load(st, x.get(st, mc), nil).(*tuplev).vs
	}
	if c.IsInvoke() {
		r := x.external(st, in, "."+c.Method.Name(), x.get(st, c.Value), args, c)
		st.vals[in] = r
		return nil
	}
	name := fnName(callee)
	if x.opaque[name] {
		var as []val
		for i, a := range args {
			as = append(as, x.snapshot(st, a, c.Args[i].Type()))
		}
		st.vals[in] = x.opaqueResult(st, name, as, in.Type())
		return nil
	}
	if x.e.P.InRepo(callee) && len(callee.Blocks) > 0 {
		outs := x.call(callee, args, st, bind)
		return outs
	}
	var recv val
	if callee.Signature.Recv() != nil {
		recv, args = args[0], args[1:]
	}
	st.vals[in] = x.external(st, in, name, recv, args, c)
	return nil
}

func isErrorT(t types.Type) bool { return t.String() == "error" }

// opaqueResult is the result of a function that is a pure function of its arguments.
func (x *alg) opaqueResult(st *astate, name string, as []val, t types.Type) val {
	a := &atom{op: "call", s: name, args: as}
	if tt, ok := t.(*types.Tuple); ok {
		r := &tuplev{}
		for i := 0; i < tt.Len(); i++ {
			r.vs = append(r.vs, x.typed(st, &atom{op: "res", s: strconv.Itoa(i), args: []val{a}}, tt.At(i).Type()))
		}
		return r
	}
	return x.typed(st, a, t)
}

func (x *alg) builtin(st *astate, name string, c *ssa.CallCommon, args []val) val {
	switch name {
	case "len":
		switch s := args[0].(type) {
		case *sref:
			return subN(s.hi, s.lo)
		case nilv:
			return numI(0)
		case *seq:
			return mkLen(s)
		case *ptr:
			return numI(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case *atom:
			return numA(&atom{op: "len", args: []val{s}})
		}
	case "cap":
		if s, ok := args[0].(*sref); ok {
			if s.full {
				return subN(s.hi, s.lo)
			}
			return numA(&atom{op: "cap", args: []val{x.seqOf(st, s)}})
		}
	case "append":
		base := x.seqOf(st, args[0])
		if s, ok := args[0].(*sref); ok && isInput(s.obj) && !s.full {
			st.writes[s.obj+" (by append)"] = true
		}
		return x.newSlice(st, c.Args[0].Type(), cat(base, x.seqOf(st, args[1])))
	case "copy":
		d, ok := args[0].(*sref)
		if !ok {
			x.fail("copy to %s", args[0].key())
		}
		src := x.seqOf(st, args[1])
		n, m := subN(d.hi, d.lo), mkLen(src)
		useGuards(st)
		switch {
		case n.key() == m.key():
		case ge0(subN(n, m)):
			n = m
		case ge0(subN(m, n)):
			src = slice(src, numI(0), n)
		default:
			x.fail("copy of %s elements to %s", m.key(), n.key())
		}
		x.writeRange(st, d, numI(0), n, src)
		return n
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0].(*num), args[1].(*num)
			useGuards(st)
			if ge0(subN(b, a)) == (name == "min") && (ge0(subN(b, a)) || ge0(subN(a, b))) {
				return a
			} else if ge0(subN(a, b)) || ge0(subN(b, a)) {
				return b
			}
		}
	}
	x.fail("builtin %s in %s", name, fnName(c.Value.Parent()))
	return nil
}

func (x *alg) numOf(st *astate, v val) *num {
	p, ok := v.(*ptr)
	if !ok {
		x.fail("number expected, have %s", v.key())
	}
	n, ok := x.obj(st, p.obj, bigIntType(x)).v.(*num)
	if !ok {
		x.fail("number expected, have %s", x.obj(st, p.obj, nil).v.key())
	}
	return n
}
func (x *alg) typeOf(pkg, name string) types.Type {
	for _, p := range x.e.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Pkg.Scope().Lookup(name).Type()
		}
	}
	x.fail("type %s.%s is unknown", pkg, name)
	return nil
}

const blstPkg = "github.com/supranational/blst/bindings/go"

func bigIntType(x *alg) types.Type { return x.typeOf("math/big", "Int") }
func (x *alg) grpOf(st *astate, v val, kind string) *grp {
	p, ok := v.(*ptr)
	if !ok {
		x.fail("point expected, have %s", v.key())
	}
	var t types.Type
	switch kind {
	case "G1":
		t = x.typeOf(blstPkg, "P1Affine")
	case "G2":
		t = x.typeOf(blstPkg, "P2Affine")
	case "GT":
		t = x.typeOf(blstPkg, "Fp12")
	}
	g, ok := x.obj(st, p.obj, t).v.(*grp)
	if !ok {
		x.fail("point expected, have %s", x.obj(st, p.obj, nil).v.key())
	}
	return g
}

// setObj changes what a pointer points to.
func (x *alg) setObj(st *astate, p val, v val) {
	pp := p.(*ptr)
	if isInput(pp.obj) {
		st.writes[pp.obj] = true
	}
	x.obj(st, pp.obj, nil).v = v
}

// scalarOf is the number in a Scalar, which must be reduced.
func (x *alg) scalarOf(st *astate, v val, t types.Type) *num {
	switch p := v.(type) {
	case *ptr:
		o := x.obj(st, p.obj, nil)
		if n, ok := o.v.(*num); ok {
			return n
		}
	case *sref:
		// little endian bytes
		if n := fromBytes(x.seqOf(st, p), "le"); n != nil {
			return n
		}
	}
	x.fail("scalar expected, have %s", v.key())
	return nil
}

// bytesOf is the encoding of a number in a fixed number of bytes.
func bytesOf(order string, n *num, l int64) *seq {
	if n.isInt(0) {
		return (&seq{}).plus(&seg{rep: numI(0), n: numI(l)})
	}
	return whole(&atom{op: order, s: strconv.FormatInt(l, 10), args: []val{n}}, numI(l))
}
func fromBytes(s *seq, order string) *num {
	if len(s.segs) == 1 {
		if a, ok := s.segs[0].base.(*atom); ok && a.op == order && s.segs[0].lo.isInt(0) && s.segs[0].hi.key() == a.s {
			return a.args[0].(*num)
		}
		if s.segs[0].rep != nil && s.segs[0].rep.key() == "0" {
			return numI(0)
		}
	}
	return nil
}

func reduced(n *num) *num {
	r := *n
	r.modq, r.red = true, true
	return &r
}

// isOrder: the number is the order of the groups.
func isOrder(n *num) bool {
	a := n.theAtom()
	return a != nil && a.op == "in" && strings.HasPrefix(a.s, "global ") && orderNames[strings.TrimSuffix(strings.TrimPrefix(a.s, "global "), "*")]
}

// blsOrder is the order of the groups of BLS12-381.
var blsOrder, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

// orderNames are the global variables that hold the order of the groups.
var orderNames = map[string]bool{}

// orderVars finds the global variables that are set to a big constant, once, in an initialisation, and that constant.
func orderVars(p *Program, pkg string) (vars map[string]*big.Int, bad []string) {
	vars = map[string]*big.Int{}
	consts := map[*ssa.Function][]*big.Int{}
	fns := p.fns[:len(p.fns):len(p.fns)]
	if sp := p.Pkg(pkg); sp != nil && sp.Func("init") != nil {
		fns = append(fns, sp.Func("init"))
	}
	for _, f := range fns {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || top.Pkg.Pkg == nil || strings.TrimPrefix(top.Pkg.Pkg.Path(), repoPrefix) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for i, a := range c.Call.Args {
					k, ok := a.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					base := 16
					if i+1 < len(c.Call.Args) {
						if bc, ok := c.Call.Args[i+1].(*ssa.Const); ok && bc.Value != nil && bc.Value.Kind() == constant.Int {
							base = int(bc.Int64())
						}
					}
					t := constant.StringVal(k.Value)
					if base == 0 || base == 16 && strings.HasPrefix(t, "0x") {
						base = 0
					}
					if base < 0 || base > 36 || len(t) < 50 {
						continue
					}
					if n, ok := new(big.Int).SetString(t, base); ok && n.BitLen() > 200 {
						consts[f] = append(consts[f], n)
					}
				}
			}
		}
	}
	stores := map[string]int{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg == nil || strings.TrimPrefix(g.Pkg.Pkg.Path(), repoPrefix) != pkg || g.Type().String() != "**math/big.Int" {
					continue
				}
				n := g.Pkg.Pkg.Name() + "." + g.Name()
				stores[n]++
				if len(consts[f]) == 1 {
					vars[n] = consts[f][0]
				}
				if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
					bad = append(bad, n+" is assigned in "+fnName(f))
				}
			}
		}
	}
	for n, k := range stores {
		if k > 1 {
			delete(vars, n)
		}
	}
	return
}

// inRange: the number is below the group order.
func inRange(v val) bool {
	n, ok := v.(*num)
	if !ok {
		return false
	}
	c, is := n.isConst()
	return n.red || is && c.Sign() >= 0 && c.BitLen() < 250
}
func (x *alg) needsRange(st *astate, n *num, where string) {
	if n.red {
		return
	}
	if a := n.theAtom(); a != nil && (a.op == "in" || a.op == "elem" || a.op == "res") {
		return // the caller's business
	}
	if c, ok := n.isConst(); ok && c.Sign() >= 0 && c.BitLen() < 250 {
		return
	}
	st.scal = append(st.scal, n.key()+" in "+where)
}

func (x *alg) external(st *astate, in *ssa.Call, name string, recv val, args []val, c *ssa.CallCommon) val {
	blst := "(*" + blstPkg + "."
	setNum := func(n *num) val { x.setObj(st, recv, n); return recv }
	newNumObj := func(n *num) val { return &ptr{obj: x.newObj(st, bigIntType(x), n)} }
	newPoint := func(g *grp, affine bool) val {
		t := map[string]string{"G1": "P1", "G2": "P2", "GT": "Fp12"}[g.kind]
		if affine {
			t += "Affine"
		}
		return &ptr{obj: x.newObj(st, x.typeOf(blstPkg, t), g)}
	}
	num := func(i int) *num { return x.numOf(st, args[i]) }
	where := fnName(in.Parent())
	switch {
	case strings.HasPrefix(name, "(*math/big.Int)."):
		m := strings.TrimPrefix(name, "(*math/big.Int).")
		self := x.numOf(st, recv)
		switch m {
		case "Set":
			return setNum(num(0))
		case "SetInt64", "SetUint64":
			return setNum(args[0].(numT))
		case "Add":
			return setNum(addN(num(0), num(1)))
		case "Sub":
			return setNum(subN(num(0), num(1)))
		case "Mul":
			return setNum(mulN(num(0), num(1)))
		case "Neg":
			return setNum(negN(num(0)))
		case "Mod":
			if !isOrder(num(1)) {
				return setNum(numA(&atom{op: "mod", args: []val{num(0), num(1)}}))
			}
			return setNum(reduced(num(0)))
		case "Exp":
			b, e := num(0), num(1)
			if _, isNil := args[2].(nilv); isNil {
				return setNum(powN(b, e))
			}
			if !isOrder(num(2)) {
				return setNum(numA(&atom{op: "expmod", args: []val{b, e, num(2)}}))
			}
			if two := subN(num(2), e); two.isInt(2) {
				return setNum(reduced(invN(b)))
			}
			return setNum(reduced(powN(b, e)))
		case "ModInverse":
			if !isOrder(num(1)) {
				return setNum(numA(&atom{op: "invmod", args: []val{num(0), num(1)}}))
			}
			return setNum(reduced(invN(num(0))))
		case "Div", "Quo":
			if k, ok := num(1).isConst(); ok && k.Sign() > 0 {
				return setNum(plainDiv(num(0), k))
			}
		case "Rsh":
			if k, ok := args[1].(numT).isConst(); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() < 4096 {
				return setNum(plainDiv(num(0), new(big.Int).Lsh(big.NewInt(1), uint(k.Int64()))))
			}
		case "SetBytes":
			q := x.seqOf(st, args[0])
			if n := fromBytes(q, "be"); n != nil {
				return setNum(n)
			}
			return setNum(numA(&atom{op: "os2ip", args: []val{q}}))
		case "Cmp":
			return numA(&atom{op: "cmp", args: []val{self, num(0)}})
		case "Sign":
			return numA(&atom{op: "cmp", args: []val{self, numI(0)}})
		case "Bit":
			if args[0].(numT).isInt(0) {
				return subN(self, scaleN(plainDiv(self, big.NewInt(2)), big.NewInt(2)))
			}
			return numA(&atom{op: "bit", args: []val{self, args[0]}})
		case "BitLen":
			return numA(&atom{op: "bitlen", args: []val{self}})
		case "FillBytes":
			d, ok := args[0].(*sref)
			if !ok {
				break
			}
			l, ok := subN(d.hi, d.lo).isConst()
			if !ok {
				break
			}
			x.needsRange(st, self, where)
			x.writeRange(st, d, numI(0), constNum(l), bytesOf("be", self, l.Int64()))
			return d
		case "Bytes":
			return x.newSlice(st, in.Type(), whole(&atom{op: "bebytes", args: []val{self}}, numA(&atom{op: "len", args: []val{&atom{op: "bebytes", args: []val{self}}}})))
		case "Uint64", "Int64":
			if self.red {
				return numA(&atom{op: "low64", args: []val{self}})
			}
			return self
		case "IsInt64", "IsUint64":
			return &boolv{a: &atom{op: m, args: []val{self}}}
		}
	case name == "math/big.NewInt":
		return newNumObj(args[0].(numT))
	case name == blstPkg+".P1Generator":
		return newPoint(grpA("G1", &atom{op: "g1"}), false)
	case name == blstPkg+".P2Generator":
		return newPoint(grpA("G2", &atom{op: "g2"}), false)
	case name == blstPkg+".HashToG1":
		q := []val{x.seqOf(st, args[0]), x.seqOf(st, args[1])}
		return newPoint(grpA("G1", &atom{op: "hashToG1", args: q}), false)
	case name == blstPkg+".Fp12One":
		return newGrp("GT")
	case name == blstPkg+".Fp12MillerLoop":
		q, p := x.grpOf(st, args[0], "G2"), x.grpOf(st, args[1], "G1")
		return newPoint(grpA("GT", &atom{op: "miller", args: []val{p, q}}), false)
	case strings.HasPrefix(name, blst):
		t, m, _ := strings.Cut(strings.TrimPrefix(name, blst), ").")
		kind := map[string]string{"P1": "G1", "P1Affine": "G1", "P2": "G2", "P2Affine": "G2", "Fp12": "GT", "Scalar": "scalar"}[t]
		point := func(i int) *grp { return x.grpOf(st, args[i], kind) }
		if kind == "scalar" {
			switch m {
			case "FromBEndian", "Deserialize":
				if n := fromBytes(x.seqOf(st, args[0]), "be"); n != nil {
					x.setObj(st, recv, n)
					return recv
				}
			case "FromLEndian":
				if n := fromBytes(x.seqOf(st, args[0]), "le"); n != nil {
					x.setObj(st, recv, n)
					return recv
				}
			case "Equals":
				return mkCmp("eq", []val{x.scalarOf(st, recv, nil), x.scalarOf(st, args[0], nil)})
			}
			break
		}
		if kind == "" {
			break
		}
		var self *grp
		if p, ok := recv.(*ptr); ok {
			self = x.grpOf(st, p, kind)
		}
		switch m {
		case "Mult":
			return newPoint(scaleG(self, x.scalarOf(st, args[0], nil)), false)
		case "MultAssign":
			x.setObj(st, recv, scaleG(self, x.scalarOf(st, args[0], nil)))
			return recv
		case "AddAssign", "MulAssign":
			x.setObj(st, recv, addG(self, point(0)))
			return recv
		case "SubAssign":
			x.setObj(st, recv, addG(self, scaleG(point(0), numI(-1))))
			return recv
		case "Add":
			return newPoint(addG(self, point(0)), false)
		case "Sub":
			return newPoint(addG(self, scaleG(point(0), numI(-1))), false)
		case "ToAffine":
			return newPoint(self, true)
		case "FromAffine":
			x.setObj(st, recv, point(0))
			return nilv{}
		case "FinalExp":
			g, ok := finalExp(self)
			if !ok {
				x.fail("final exponentiation of %s", self.key())
			}
			x.setObj(st, recv, g)
			return nilv{}
		case "Equals":
			return mkCmp("eq", []val{self, point(0)})
		case "Compress":
			return x.newSlice(st, in.Type(), whole(&atom{op: "compress", args: []val{self}}, atomLen(&atom{op: "compress", args: []val{self}})))
		case "Uncompress", "Deserialize":
			if m == "Deserialize" {
				break
			}
			q := x.seqOf(st, args[0])
			switch b := mkAtom("point", kind, []val{q}).(type) {
			case *grp:
				x.setObj(st, recv, b)
			case *atom:
				x.setObj(st, recv, grpA(kind, b))
			}
			return &ptr{obj: recv.(*ptr).obj, nilIf: boolOf(mkAtom("badpoint", kind, []val{q}))}
		case "ToBendian":
			return x.newSlice(st, in.Type(), whole(&atom{op: "gtbytes", args: []val{self}}, numI(576)))
		case "InG1", "InG2", "KeyValidate", "SigValidate":
			return &boolv{a: &atom{op: m, args: []val{self}}}
		}
	case name == "golang.org/x/crypto/sha3.NewLegacyKeccak256":
		return &ptr{obj: x.newObj(st, nil, &seq{})}
	case name == "github.com/ethereum/go-ethereum/crypto.Keccak256":
		// the arguments are in a list
		var q *seq = &seq{}
		l, ok := c.Args[0].(*ssa.Slice)
		if ok {
			if al, ok := l.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if s, ok := r2.(*ssa.Store); ok {
								q = cat(q, x.seqOf(st, x.get(st, s.Val)))
							}
						}
					}
				}
			}
		} else {
			break
		}
		return x.newSlice(st, in.Type(), whole(&atom{op: "keccak", args: []val{q}}, numI(32)))
	case name == ".Write" || name == "(*bytes.Buffer).Write" || name == "(*bytes.Buffer).WriteString":
		p, ok := recv.(*ptr)
		if !ok {
			break
		}
		q := x.content(st, p)
		if q == nil {
			break
		}
		add := x.seqOf(st, args[0])
		x.setContent(st, p, cat(q, add))
		return &tuplev{[]val{mkLen(add), nilv{}}}
	case name == "(*bytes.Buffer).WriteByte":
		p := recv.(*ptr)
		x.setContent(st, p, cat(x.content(st, p), litSeq(args[0])))
		return nilv{}
	case name == "(*bytes.Buffer).Bytes":
		return x.newSlice(st, in.Type(), x.content(st, recv.(*ptr)))
	case name == ".Sum":
		p, ok := recv.(*ptr)
		if !ok {
			break
		}
		q := x.content(st, p)
		if q == nil {
			break
		}
		h := whole(&atom{op: "keccak", args: []val{q}}, numI(32))
		return x.newSlice(st, in.Type(), cat(x.seqOf(st, args[0]), h))
	case name == ".Reset":
		x.setContent(st, recv.(*ptr), &seq{})
		return nilv{}
	case strings.HasPrefix(name, "bytes.Trim"):
		a := &atom{op: strings.TrimPrefix(name, "bytes."), args: []val{x.seqOf(st, args[0])}}
		return x.newSlice(st, in.Type(), whole(a, numA(&atom{op: "len", args: []val{a}})))
	case name == "bytes.Repeat":
		s, n := x.seqOf(st, args[0]), args[1].(numT)
		if len(s.segs) == 1 && len(s.segs[0].lit) == 1 {
			return x.newSlice(st, in.Type(), (&seq{}).plus(&seg{rep: s.segs[0].lit[0], n: n}))
		}
		v := freshIter(subN(n, numI(1)))
		return x.newSlice(st, in.Type(), comp(v, n, s))
	case name == "bytes.Equal":
		return mkCmp("eq", []val{x.seqOf(st, args[0]), x.seqOf(st, args[1])})
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."), strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		order := "be"
		if strings.Contains(name, "little") {
			order = "le"
		}
		m := name[strings.LastIndex(name, ".")+1:]
		l := map[string]int64{"PutUint64": 8, "PutUint32": 4, "PutUint16": 2}[m]
		if l > 0 {
			d, ok := args[0].(*sref)
			if ok {
				x.writeRange(st, d, numI(0), numI(l), bytesOf(order, args[1].(numT), l))
				return nilv{}
			}
		}
		if m == "AppendUint64" {
			return x.newSlice(st, in.Type(), cat(x.seqOf(st, args[0]), bytesOf(order, args[1].(numT), 8)))
		}
		if m == "Uint64" {
			q := slice(x.seqOf(st, args[0]), numI(0), numI(8))
			if n := fromBytes(q, order); n != nil {
				return n
			}
			return numA(&atom{op: "uint64" + order, args: []val{q}})
		}
	case name == ".Read" || name == "io.ReadFull" || name == "crypto/rand.Read" || name == "(*crypto/rand.reader).Read":
		from := recv
		if name == "io.ReadFull" {
			from, args = args[0], args[1:]
		} else if name == "crypto/rand.Read" {
			from = &atom{op: "in", s: "global rand.Reader"}
		}
		d, ok := args[0].(*sref)
		if !ok {
			break
		}
		l := subN(d.hi, d.lo)
		x.nobj++
		id := strconv.Itoa(x.nobj)
		x.writeRange(st, d, numI(0), l, whole(&atom{op: "random", s: "r" + id, args: []val{x.snapshotAny(from)}}, l))
		e := &atom{op: "err", s: "e" + id}
		if name == ".Read" {
			return &tuplev{[]val{numA(&atom{op: "nat", s: "n" + id}), e}}
		}
		return &tuplev{[]val{l, e}}
	case name == "crypto/rand.Int":
		var max numT = num(1)
		x.nobj++
		r := numA(&atom{op: "random", s: "r" + strconv.Itoa(x.nobj), args: []val{x.snapshotAny(args[0]), max}})
		if isOrder(max) {
			r = reduced(r)
		}
		id := newNumObj(r)
		e := &atom{op: "err", s: "e" + strconv.Itoa(x.nobj)}
		return &tuplev{[]val{id, e}}
	case name == "errors.New" || name == "fmt.Errorf" || name == "github.com/pkg/errors.New" || name == "github.com/pkg/errors.Errorf":
		return errv{where}
	case name == "github.com/pkg/errors.Wrap" || name == "github.com/pkg/errors.Wrapf" || name == "github.com/pkg/errors.WithStack":
		return args[0]
	case name == "fmt.Sprintf" || name == "fmt.Sprint":
		return &atom{op: "text"}
	case strings.HasSuffix(name, "common/hexutil.Encode"):
		q := x.seqOf(st, args[0])
		h := &atom{op: "hex", args: []val{q}}
		return whole(h, atomLen(h))
	case strings.HasSuffix(name, "common/hexutil.Decode"):
		return x.unhex(st, in.Type().(*types.Tuple).At(0).Type(), x.seqOf(st, args[0]))
	case strings.HasSuffix(name, "common/hexutil.Bytes).MarshalText"):
		h := &atom{op: "hex", args: []val{x.seqOf(st, recv)}}
		return &tuplev{[]val{x.newSlice(st, types.NewSlice(types.Typ[types.Byte]), whole(h, atomLen(h))), nilv{}}}
	case strings.HasSuffix(name, "common/hexutil.Bytes).UnmarshalText"):
		r := x.unhex(st, types.NewSlice(types.Typ[types.Byte]), x.seqOf(st, args[0])).(*tuplev)
		x.setObj(st, recv, r.vs[0])
		return r.vs[1]
	case name == "math/bits.Len64" || name == "math/bits.LeadingZeros64":
		return numA(&atom{op: name, args: []val{args[0]}})
	}
	x.fail("%s is not known (called by %s)", strings.TrimPrefix(name, "."), where)
	return nil
}

type numT = *num

func (x *alg) snapshotAny(v val) val {
	if p, ok := v.(*ptr); ok {
		return &atom{op: "obj", s: p.obj}
	}
	return v
}

// plainDiv is the quotient as it stands (for loops that halve a number).
func plainDiv(n *num, c *big.Int) *num {
	if k, ok := n.isConst(); ok {
		return constNum(new(big.Int).Div(k, c))
	}
	return numA(&atom{op: "div", s: c.String(), args: []val{n}})
}

// content of a hash or buffer.
func (x *alg) content(st *astate, p *ptr) *seq {
	if o := st.heap[p.obj]; o != nil {
		if q, ok := o.v.(*seq); ok {
			return q
		}
	}
	x.fail("no buffer: %s", p.key())
	return nil
}
func (x *alg) setContent(st *astate, p *ptr, q *seq) {
	if isInput(p.obj) {
		st.writes[p.obj] = true
	}
	st.heap[p.obj].v = q
}

// unhex is the result of decoding a hexadecimal text.
func (x *alg) unhex(st *astate, t types.Type, q *seq) val {
	a := mkAtom("unhex", "", []val{q})
	d, ok := a.(*seq)
	if !ok {
		d = whole(a.(*atom), atomLen(a.(*atom)))
	}
	var e val = nilv{}
	if b := boolOf(mkAtom("nothex", "", []val{q})); b.c == nil {
		e = &cerr{b}
	}
	return &tuplev{[]val{x.newSlice(st, t, d), e}}
}

func boolOf(v val) *boolv {
	switch b := v.(type) {
	case *boolv:
		return b
	case *atom:
		return &boolv{a: b}
	}
	return nil
}
