package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the cryptography of shlib/shcrypto, decided by abstract interpretation into normal forms (alg.go).

const scPkg = "shlib/shcrypto."

// algRun is one symbolic run of a function.
type algRun struct {
	c    *Ctx
	x    *alg
	f    *ssa.Function
	st   *astate
	args []val
	outs []*aout
}

type algCtx struct {
	c   *Ctx
	e   *Engine
	opq []string
}

func (c *Ctx) algebra(e *Engine, opaque ...string) *algCtx { return &algCtx{c, e, opaque} }

// try runs code of the interpreter; what it does not understand is noted and not decided.
func (a *algCtx) try(what string, f func()) bool {
	ok := false
	defer noGuards()
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, is := r.(algErr)
				if !is {
					// a defect of the interpreter on unforeseen code decides nothing
					a.c.notes = append(a.c.notes, fmt.Sprintf("undecided: %s: %v", what, r))
					return
				}
				a.c.notes = append(a.c.notes, "undecided: "+what+": "+e.msg)
			}
		}()
		f()
		ok = true
	}()
	return ok
}

// noGuards forgets the conditions that comparisons of numbers rely on.
func noGuards() { useGuards(&astate{}) }

// run interprets a function on symbolic arguments named a0, a1, ... which prep may replace.
func (a *algCtx) run(name string, prep func(r *algRun)) *algRun {
	f := a.e.P.Func(name)
	if f == nil {
		a.c.notes = append(a.c.notes, "undecided: there is no function "+name)
		return nil
	}
	return a.runOn(f, newAlg(a.e, a.opq...), newState(), prep)
}
func newState() *astate {
	return &astate{vals: map[ssa.Value]val{}, heap: map[string]*aobj{}, writes: map[string]bool{}}
}
func (a *algCtx) runOn(f *ssa.Function, x *alg, st *astate, prep func(r *algRun)) *algRun {
	r := &algRun{c: a.c, x: x, f: f, st: st}
	ok := a.try(fnName(f), func() {
		for i, p := range f.Params {
			r.args = append(r.args, x.symbolic(r.st, p.Type(), string(rune('a'+x.runs))+strconv.Itoa(i)))
		}
		if prep != nil {
			prep(r)
		}
		x.runs++
		r.outs = x.call(f, r.args, r.st, nil)
	})
	for g := range x.fns {
		a.c.fns[g] = true
	}
	if !ok {
		return nil
	}
	r.solved()
	a.c.alts += len(r.outs)
	return r
}

// solved leaves out the outcomes that depend on loop variables for which no closed form was found.
func (r *algRun) solved() {
	var outs []*aout
	for _, o := range r.outs {
		open := strings.Contains(guardsOf(o), "phi:p")
		if !open && !o.pan {
			func() {
				defer func() {
					if e := recover(); e != nil {
						open = true
					}
				}()
				for i, v := range o.res {
					open = open || strings.Contains(r.x.show(o.st, v, r.f.Signature.Results().At(i).Type()), "phi:p")
				}
				for i, v := range r.args {
					if _, ok := v.(*ptr); ok {
						open = open || strings.Contains(r.x.show(o.st, v, r.f.Params[i].Type()), "phi:p")
					}
				}
			}()
		}
		if open {
			r.c.notes = append(r.c.notes, "undecided: "+fnName(r.f)+": a loop without closed form")
			continue
		}
		outs = append(outs, o)
	}
	r.outs = outs
}

// list is the content of a list argument (or of a pointer to a list).
func (r *algRun) list(i int) *seq { return r.listOf(r.args[i], r.f.Params[i].Type()) }
func (r *algRun) listOf(v val, t types.Type) *seq {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v = r.x.load(r.st, v, p.Elem())
	}
	return r.x.seqOf(r.st, v)
}

// number is a numeric argument (or the one it points to).
func (r *algRun) number(i int) *num {
	if n, ok := r.args[i].(*num); ok {
		return n
	}
	return r.x.load(r.st, r.args[i], r.f.Params[i].Type().Underlying().(*types.Pointer).Elem()).(*num)
}

// point is a point argument.
func (r *algRun) point(i int) *grp {
	return r.x.load(r.st, r.args[i], r.f.Params[i].Type().Underlying().(*types.Pointer).Elem()).(*grp)
}
func (r *algRun) setPoint(i int, g *grp) {
	p := r.args[i].(*ptr)
	t := r.f.Params[i].Type().Underlying().(*types.Pointer).Elem()
	r.st.heap[p.obj] = &aobj{v: g, typ: t}
}
func (r *algRun) setNumber(i int, n *num) {
	p := r.args[i].(*ptr)
	r.st.heap[p.obj] = &aobj{v: n, typ: r.f.Params[i].Type().Underlying().(*types.Pointer).Elem()}
}
func inNum(s string) *num         { return numA(&atom{op: "in", s: s}) }
func inGrp(kind, s string) *grp   { return grpA(kind, &atom{op: "in", s: s}) }
func numAt(s *seq, i *num) *num   { return asNum(at(s, i, false)) }
func atG(kind string, v val) *grp { return asGrp(kind, v) }

func asNum(v val) *num {
	switch n := unbox(v).(type) {
	case *num:
		return n
	case *atom:
		return numA(n)
	}
	panic(algErr{"no number: " + v.key()})
}
func asGrp(kind string, v val) *grp {
	switch n := unbox(v).(type) {
	case *grp:
		return n
	case *atom:
		return grpA(kind, n)
	}
	panic(algErr{"no point: " + v.key()})
}

// sum of f(i) for all i < n.
func sumOf(n *num, f func(i *num) *num) *num {
	v := freshIter(subN(n, numI(1)))
	return sumN(v, numI(0), n, f(numA(v)))
}
func gsumOf(kind string, n *num, f func(i *num) *grp) *grp {
	v := freshIter(subN(n, numI(1)))
	g := newGrp(kind)
	g.addSum(v, numI(0), n, f(numA(v)))
	return g
}
func g2of(n *num) *grp { return scaleG(grpA("G2", &atom{op: "g2"}), n) }

// value renders result i of an outcome.
func (r *algRun) value(o *aout, i int) string {
	defer noGuards()
	useGuards(o.st)
	return r.x.show(o.st, o.res[i], r.f.Signature.Results().At(i).Type())
}

// content is what result i of an outcome points to.
func (r *algRun) content(o *aout, i int) val {
	defer noGuards()
	useGuards(o.st)
	v, t := o.res[i], r.f.Signature.Results().At(i).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v, t = r.x.load(o.st, v, p.Elem()), p.Elem()
	}
	if s, ok := v.(*sref); ok {
		v = r.x.seqOf(o.st, s)
	}
	return renorm(v)
}

// decided evaluates a condition under the guards of an outcome: true, false or unknown (nil).
func (r *algRun) decided(o *aout, b *boolv) *bool {
	defer noGuards()
	useGuards(o.st)
	d := r.x.decide(o.st, renorm(b).(*boolv))
	if m := solveEqs(o.st); d.c == nil && len(m) > 0 {
		d = asub(d, m).(*boolv)
	}
	return d.c
}

// solveEqs solves equations between numbers among the conditions of a path.
func solveEqs(st *astate) map[string]val {
	m := map[string]val{}
	for _, g := range st.guards {
		if g.a == nil || g.a.op != "eq" || g.neg {
			continue
		}
		d, ok := g.a.args[0].(*num)
		if z, ok2 := g.a.args[1].(*num); !ok || !ok2 || !z.isInt(0) || d.modq {
			continue
		}
		if len(m) > 0 {
			d = asub(d, m).(*num)
		}
	monos:
		for _, mo := range d.m {
			if len(mo.f) != 1 || !mo.f[0].e.isInt(1) || mo.c.CmpAbs(bigI(1)) != 0 {
				continue
			}
			a := mo.f[0].a
			if a.op != "in" && a.op != "nat" && a.op != "len" {
				continue
			}
			// a = rest, where quotients that depend on a become numbers of their own
			rest := newNum()
			if mo.c.Sign() > 0 {
				rest = subN(numA(a), d)
			} else {
				rest = addN(numA(a), d)
			}
			sub := map[string]val{}
			for _, r := range rest.m {
				for _, f := range r.f {
					if f.a.op == "div" && amentions(f.a, a) {
						sub[f.a.key()] = numA(&atom{op: "nat", s: "quotient " + f.a.key()})
					}
				}
			}
			if len(sub) > 0 {
				rest = asub(rest, sub).(*num)
			}
			if amentions(rest, a) {
				continue monos
			}
			for k, v := range m {
				m[k] = asub(v, map[string]val{a.key(): rest})
			}
			m[a.key()] = rest
			break
		}
	}
	return m
}

// feasible tells whether the guards of an outcome do not contradict themselves.
func (r *algRun) feasible(o *aout) bool {
	defer noGuards()
	useGuards(o.st)
	for _, g := range o.st.guards {
		if h := renorm(g).(*boolv); h.c != nil && !*h.c {
			return false
		}
		if g.a != nil && g.a.op == "isnil" && !g.neg && o.st.writes[g.a.s] {
			return false // what is nil was written
		}
	}
	return true
}

// oks are the outcomes without error, bad the others.
func (r *algRun) split() (oks, bad []*aout) {
	defer noGuards()
	n := r.f.Signature.Results().Len()
	for _, o := range r.outs {
		if o.pan {
			bad = append(bad, o)
			continue
		}
		if n > 0 && isErrorT(r.f.Signature.Results().At(n-1).Type()) {
			switch e := renorm(o.res[n-1]).(type) {
			case nilv:
				oks = append(oks, o)
			default:
				if d := r.decided(o, r.x.isNil(o.st, e)); d != nil && *d {
					oks = append(oks, o)
				} else {
					bad = append(bad, o)
				}
			}
			continue
		}
		oks = append(oks, o)
	}
	return
}

// guardsOf renders the conditions of an outcome.
func guardsOf(o *aout) string {
	var r []string
	for _, g := range o.st.guards {
		r = append(r, g.key())
	}
	return strings.Join(r, " and ")
}

func cut(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

// is requires that the content of result i is this value in all outcomes that succeed.
func (r *algRun) is(rule, what string, i int, want func(o *aout) val) {
	if r == nil {
		return
	}
	oks, _ := r.split()
	for _, o := range oks {
		if !r.feasible(o) {
			continue
		}
		ok := false
		var w, have val
		if !(&algCtx{c: r.c}).try(fnName(r.f), func() {
			w, have = want(o), r.content(o, i)
			useGuards(o.st)
			w = renorm(w)
			ok = w.key() == have.key()
			if m := solveEqs(o.st); !ok && len(m) > 0 {
				ok = asub(w, m).key() == asub(have, m).key()
			}
		}) {
			continue
		}
		r.c.must(ok, rule, fnName(r.f), fmt.Sprintf("%s: computes %s where %s is expected (if %s)", what, cut(have.key()), cut(w.key()), cut(guardsOf(o))))
	}
}

// holdsIff requires that a truth value is the conjunction of the conditions.
func (r *algRun) holdsIff(rule, what string, i int, conds ...*boolv) {
	if r == nil {
		return
	}
	defer noGuards()
	oks, _ := r.split()
	for _, o := range oks {
		if !r.feasible(o) {
			continue
		}
		b, ok := renorm(o.res[i]).(*boolv)
		if !ok {
			r.c.notes = append(r.c.notes, "undecided: "+fnName(r.f)+": result "+o.res[i].key())
			continue
		}
		useGuards(o.st)
		b = r.x.decide(o.st, b)
		want := constBool(true)
		for _, c := range conds {
			useGuards(o.st)
			want = andB(want, r.x.decide(o.st, renorm(c).(*boolv)))
		}
		r.c.must(want.key() == b.key(), rule, fnName(r.f), fmt.Sprintf("%s: the answer is %s where it has to be %s (if %s)", what, cut(b.key()), cut(want.key()), cut(guardsOf(o))))
	}
}

// failsIff requires that there is an error exactly unless all conditions hold.
func (r *algRun) failsIff(rule, what string, conds ...*boolv) {
	if r == nil {
		return
	}
	oks, bad := r.split()
	for _, o := range oks {
		for _, c := range conds {
			d := r.decided(o, c)
			r.c.must(d != nil && *d || !r.feasible(o), rule, fnName(r.f), fmt.Sprintf("%s: succeeds although nothing ensures %s (only %s)", what, cut(c.key()), cut(guardsOf(o))))
		}
	}
	for _, o := range bad {
		ok := !r.feasible(o)
		for _, c := range conds {
			if d := r.decided(o, c); d != nil && !*d {
				ok = true
			}
		}
		r.c.must(ok, rule, fnName(r.f), fmt.Sprintf("%s: fails without a reason (if %s)", what, cut(guardsOf(o))))
	}
}

// clean requires that a run changes no argument, uses only scalars in range, and stays within its lists.
func (r *algRun) clean(scalars, ranges bool, allowed ...string) {
	if r == nil {
		return
	}
	bad := ""
	for _, o := range r.outs {
	writes:
		for w := range o.st.writes {
			for _, a := range allowed {
				if strings.HasPrefix(w, a) {
					continue writes
				}
			}
			bad = w
		}
	}
	r.c.must(bad == "", "arguments are not changed", fnName(r.f), "changes its argument: "+strings.Replace(bad, "in:a", "argument ", 1))
	for _, o := range r.outs {
		if scalars {
			r.c.must(len(o.st.scal) == 0, "scalars are reduced", fnName(r.f), "a number that may exceed the group order is used as a scalar: "+cut(strings.Join(o.st.scal, "; ")))
		}
		if ranges {
			for _, b := range r.x.outOfRange(o.st) {
				r.c.must(false, "no access out of range", b.where, "panics if this is negative: "+cut(b.n.key())+" (if "+cut(guardsOf(o))+")")
			}
			r.c.must(true, "no access out of range", fnName(r.f), "")
		}
	}
}

var u64bytes = scPkg + "Uint64toBytes"

func init() {
	register(&Check{
		ID:   "C39",
		Rule: "abstract interpretation of Encrypt and Decrypt (with all that they call) into normal forms over symbolic message, sigma, epoch id and secret: the composition of both is the identity without any condition; the ciphertext has exactly the parts C1 = r*g2, C2 = sigma xor H2(e(id, pk)^r), C3[i] = padded block i xor H4(sigma, i) with r = H3(sigma, message); a decryption succeeds only if re-encryption of its result gives the same C1; scalars are reduced, arguments unchanged, no access is out of range",
		Mods: []string{"shlib"},
		Run: func(c *Ctx) {
			a := c.algebra(c.shl(), u64bytes)
			enc := scPkg + "Encrypt"
			dec := "(*" + scPkg + "EncryptedMessage).Decrypt"
			s := inNum("secret")
			setup := func(r *algRun) {
				r.setPoint(1, g2of(s))
				r.setPoint(2, inGrp("G1", "id"))
			}
			r := a.run(enc, setup)
			a.encryptParts(r, s)
			r.clean(true, true)
			// the composition
			if r != nil {
				df := a.e.P.Func(dec)
				for _, o := range r.outs {
					if o.pan || df == nil {
						continue
					}
					var msg *seq
					o := o
					d := a.runOn(df, r.x, o.st.clone(), func(q *algRun) {
						q.args[0] = o.res[0]
						q.setPoint(1, scaleG(inGrp("G1", "id"), s))
						msg = r.x.seqOf(r.st, r.args[0])
					})
					if d == nil {
						continue
					}
					for _, p := range d.outs {
						if p.pan || !d.feasible(p) {
							continue
						}
						oks, _ := (&algRun{x: d.x, f: d.f, outs: []*aout{p}}).split()
						c.must(len(oks) == 1, "decryption inverts encryption", dec, "the decryption of an encrypted message can fail: if "+cut(guardsOf(p)))
						if len(oks) == 1 {
							have := d.content(p, 0)
							c.must(have.key() == renorm(msg).key(), "decryption inverts encryption", dec, "the decryption of the encryption of "+msg.key()+" is "+cut(have.key()))
						}
					}
				}
			}
			// arbitrary ciphertexts
			d := a.run(dec, nil)
			d.clean(true, true)
			if d != nil {
				oks, _ := d.split()
				ef := a.e.P.Func(enc)
				sf := a.e.P.Func("(*" + scPkg + "EncryptedMessage).Sigma")
				for _, o := range oks {
					if ef == nil || sf == nil || !d.feasible(o) {
						continue
					}
					o := o
					sg := a.runOn(sf, d.x, o.st.clone(), func(q *algRun) { q.args = d.args })
					if sg == nil || len(sg.outs) != 1 {
						continue
					}
					re := a.runOn(ef, d.x, sg.outs[0].st.clone(), func(q *algRun) {
						q.args[0] = o.res[0]
						q.args[3] = sg.outs[0].res[0]
					})
					if re == nil {
						continue
					}
					for _, p := range re.outs {
						if p.pan {
							continue
						}
						a.try(dec, func() {
							mt := a.e.P.Type("shlib/shcrypto", "EncryptedMessage")
							c1 := re.x.load(p.st, re.x.fieldPtr(p.st, p.res[0].(*ptr), "C1", nil), fieldType(mt, "C1"))
							have := re.x.load(p.st, re.x.fieldPtr(p.st, d.args[0].(*ptr), "C1", nil), fieldType(mt, "C1"))
							want := mkCmp("eq", []val{re.x.grpOf(p.st, c1, "G2"), re.x.grpOf(p.st, have, "G2")})
							v := d.decided(o, want)
							c.must(v != nil && *v, "decryption rejects manipulated messages", dec, "a decryption succeeds without comparing C1 with that of the decrypted message: requires "+cut(want.key())+", knows only "+cut(guardsOf(o)))
						})
					}
				}
			}
			a.u64injective()
			a.hashes()
			rs := a.run(scPkg+"RandomSigma", nil)
			if rs != nil {
				oks, _ := rs.split()
				for _, o := range oks {
					a.try("RandomSigma", func() {
						c.must(isRandom(rs.content(o, 0), numI(32), "a0"), "sigma is random", fnName(rs.f), "sigma is "+rs.content(o, 0).key()+" and not 32 bytes of the source of randomness")
					})
				}
			}
		},
	})
}

// isRandom tells whether a list is a piece of this length of a source of randomness, and nothing else.
func isRandom(v val, n *num, source string) bool {
	q, ok := v.(*seq)
	if !ok || len(q.segs) != 1 {
		return false
	}
	a, ok := q.segs[0].base.(*atom)
	return ok && a.op == "random" && q.segs[0].lo.isInt(0) && q.segs[0].hi.key() == n.key() && len(a.args) > 0 && strings.Contains(a.args[0].key(), source)
}

func fieldType(n *types.Named, f string) types.Type {
	if n == nil {
		return nil
	}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return nil
}

func hashOf(prefix int64, parts ...*seq) *seq {
	q := litSeq(numI(prefix))
	for _, p := range parts {
		q = cat(q, p)
	}
	return whole(&atom{op: "keccak", args: []val{q}}, numI(32))
}

// encryptParts compares a ciphertext with its definition.
func (a *algCtx) encryptParts(r *algRun, s *num) {
	if r == nil {
		return
	}
	mt := a.e.P.Type("shlib/shcrypto", "EncryptedMessage")
	for _, o := range r.outs {
		if o.pan {
			continue
		}
		o := o
		a.try(fnName(r.f), func() {
			useGuards(o.st)
			p := o.res[0].(*ptr)
			field := func(n string) val {
				return r.x.load(o.st, r.x.fieldPtr(o.st, p, n, nil), fieldType(mt, n))
			}
			msg := r.x.seqOf(r.st, r.args[0])
			sigma := r.x.seqOf(r.st, r.args[3])
			h := hashOf(3, sigma, msg)
			rr := numA(&atom{op: "os2ip", args: []val{h}})
			part := func(n string, have, want val) {
				have, want = renorm(have), renorm(want)
				a.c.must(have.key() == want.key(), "parts of a ciphertext", fnName(r.f)+" "+n, n+" is "+cut(have.key())+" and not "+cut(want.key()))
			}
			part("C1", r.x.grpOf(o.st, field("C1"), "G2"), g2of(rr))
			gt := grpA("GT", &atom{op: "pair", args: []val{&atom{op: "in", s: "id"}, &atom{op: "g2"}}})
			gt = scaleG(gt, mulN(rr, s))
			k2 := hashOf(2, whole(&atom{op: "gtbytes", args: []val{gt}}, numI(576)))
			part("C2", r.x.seqOf(o.st, field("C2")), xorSeq(numI(32), []val{sigma, k2}))
			// blocks
			l := mkLen(msg)
			nb := addN(mkDiv(l, bigI(32)), numI(1))
			pad := subN(scaleN(nb, bigI(32)), l)
			padded := cat(msg, (&seq{}).plus(&seg{rep: pad, n: pad}))
			v := freshIter(subN(nb, numI(1)))
			i := numA(v)
			ib := &atom{op: "res", s: "0", args: []val{&atom{op: "call", s: u64bytes, args: []val{i}}}}
			k4 := hashOf(4, sigma, whole(ib, atomLen(ib)))
			block := slice(padded, scaleN(i, bigI(32)), addN(scaleN(i, bigI(32)), numI(32)))
			part("C3", r.x.seqOf(o.st, field("C3")), comp(v, nb, litSeq(xorSeq(numI(32), []val{block, k4}))))
		})
	}
}

// u64injective: the encoding of block numbers is the big endian one without leading zeros.
func (a *algCtx) u64injective() {
	r := a.run(u64bytes, nil)
	if r == nil {
		return
	}
	n := r.args[0].(*num)
	for _, o := range r.outs {
		if o.pan || !r.feasible(o) {
			continue
		}
		o := o
		a.try(u64bytes, func() {
			q, ok := r.content(o, 0).(*seq)
			zero := r.decided(o, mkCmp("eq", []val{n, numI(0)}))
			good := false
			switch {
			case !ok || len(q.segs) != 1:
			case q.segs[0].lit != nil:
				good = len(q.segs[0].lit) == 1 && q.segs[0].lit[0].key() == "0" && zero != nil && *zero
			case q.segs[0].base != nil:
				b, _ := q.segs[0].base.(*atom)
				good = b != nil && b.op == "be" && b.s == "8" && b.args[0].key() == n.key() && q.segs[0].hi.isInt(8)
				if lo := q.segs[0].lo; good && !lo.isInt(0) {
					// what is left out is zero, and nothing else
					z := constBool(false)
					for _, g := range o.st.guards {
						if g.a != nil && g.a.op == "all" && !g.neg && g.a.args[0].key() == "0" && g.a.args[1].key() == lo.key() {
							v := freshIter(nil)
							cond := openBinder(g.a, numA(v))[0].(*boolv)
							el := asNum(at(whole(b, numI(8)), numA(v), true))
							if cond.key() == mkCmp("eq", []val{el, numI(0)}).key() {
								z = constBool(true)
							}
						}
					}
					last := r.decided(o, mkCmp("eq", []val{asNum(at(whole(b, numI(8)), lo, true)), numI(0)}))
					good = z.c != nil && *z.c && last != nil && !*last
				}
			}
			a.c.must(good, "block numbers are encoded injectively", u64bytes, "returns "+r.content(o, 0).key()+" if "+cut(guardsOf(o)))
			r.x.fns[r.f] = true
		})
	}
	r.clean(false, true)
}

// hashes: every hash function has its own prefix.
func (a *algCtx) hashes() {
	for i, n := range []string{"Hash1", "Hash2", "Hash3", "Hash4"} {
		r := a.run(scPkg+n, nil)
		if r == nil {
			continue
		}
		pre := numI(int64(i + 1))
		r.is("hash functions are separated", n, 0, func(o *aout) val {
			switch n {
			case "Hash1":
				// the separation tag is a constant of the protocol
				dst := litSeq()
				for _, b := range []byte("SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_") {
					dst = cat(dst, litSeq(numI(int64(b))))
				}
				return grpA("G1", &atom{op: "hashToG1", args: []val{cat(litSeq(pre), r.list(0)), dst}})
			case "Hash2":
				return hashOf(2, whole(&atom{op: "gtbytes", args: []val{r.point(0)}}, numI(576)))
			case "Hash3":
				return numA(&atom{op: "os2ip", args: []val{hashOf(3, r.list(0))}})
			}
			return hashOf(4, r.list(0))
		})
		r.clean(true, true)
		if n == "Hash3" {
			for _, o := range r.outs {
				m, ok := r.content(o, 0).(*num)
				a.c.must(ok && m.red, "scalars are reduced", fnName(r.f), "the hash that is used as a scalar is not reduced modulo the group order")
			}
		}
	}
}
func bigI(i int64) *big.Int { return big.NewInt(i) }
