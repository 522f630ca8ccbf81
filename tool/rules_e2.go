package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Threshold keys (C40) and encodings (C41) of shlib/shcrypto.

func scMethod(t, m string) string { return "(*" + scPkg + t + ")." + m }

// vec is a list of n numbers or points given by its element at every index.
func vec(n *num, f func(i *num) val) *seq {
	v := freshIter(subN(n, numI(1)))
	return comp(v, n, litSeq(&box{f(numA(v))}))
}

// setList replaces the content of a list argument, or of a pointer to a list.
func (r *algRun) setList(i int, q *seq) {
	t := r.f.Params[i].Type()
	if p, ok := r.args[i].(*ptr); ok {
		et := t.Underlying().(*types.Pointer).Elem()
		r.st.heap[p.obj] = &aobj{v: r.x.newSlice(r.st, et, q), typ: et}
		return
	}
	r.args[i] = r.x.newSlice(r.st, t, q)
}

// groupOrder is the value of the variable that holds the order of the groups.
func groupOrder() *num {
	for n := range orderNames {
		return inNum("global " + n + "*")
	}
	return inNum("global shcrypto.order*")
}

func (r *algRun) elemNum(i int, at *num) *num { return numAt(r.list(i), at) }

// honest requires that a truth value is true in every outcome without error.
func (r *algRun) alwaysTrue(rule, what string, i int) {
	if r == nil {
		return
	}
	oks, _ := r.split()
	for _, o := range oks {
		if !r.feasible(o) {
			continue
		}
		b, ok := renorm(o.res[i]).(*boolv)
		if !ok {
			continue
		}
		d := r.decided(o, b)
		r.c.must(d != nil && *d, rule, fnName(r.f), fmt.Sprintf("%s: the answer is %s (if %s)", what, cut(b.key()), cut(guardsOf(o))))
	}
}

func init() {
	register(&Check{
		ID:   "C40",
		Rule: "abstract interpretation of the threshold key functions into normal forms over symbolic polynomials, commitments, indices and shares: evaluation = sum p_j x^j with x = 1+index, commitments c_j*g2, verification of an evaluation <=> right degree and eval*g2 = sum x^j gamma_j, secret share = sum of evaluations, public share = sum_i sum_j x^j gamma_ij, public key = sum gamma_i0, epoch key = sum lambda_i share_i with Lagrange coefficients at 0, share verification <=> pairing equation; honest values verify by composition of the functions; modulus is the constant of BLS12-381; coefficients are independent random draws below it; scalars are reduced; arguments unchanged",
		Mods: []string{"shlib"},
		Run: func(c *Ctx) {
			a := c.algebra(c.shl(), u64bytes)
			vars, bad := orderVars(a.e.P, "shlib/shcrypto")
			var names []string
			for n := range vars {
				names = append(names, n)
			}
			sort.Strings(names)
			right := len(names) == 0
			for _, n := range names {
				right = right || vars[n].Cmp(blsOrder) == 0
			}
			for _, n := range names {
				c.must(right, "modulus is the group order", n, "the modulus "+vars[n].Text(16)+" is not the order of the groups of BLS12-381")
			}
			for _, b := range bad {
				c.must(false, "modulus is the group order", b, "the group order changes at run time")
			}
			a.polynomials()
			a.shares()
			a.sweepPure()
		},
	})
	register(&Check{
		ID:   "C41",
		Rule: "abstract interpretation of all Marshal/Unmarshal, Text and Gob forms of shcrypto into normal forms over symbolic values and symbolic bytes: decoding what was encoded succeeds and gives the same value whatever the receiver held; a decoder succeeds only if every point was decoded without failure and lies in its group (and lengths and version fit), accesses no byte out of range for any input, and writes nothing but its receiver",
		Mods: []string{"shlib"},
		Run: func(c *Ctx) {
			a := c.algebra(c.shl(), u64bytes)
			for _, t := range []string{"EncryptedMessage", "EonSecretKeyShare", "EonPublicKeyShare", "EonPublicKey", "EpochID", "EpochSecretKeyShare", "EpochSecretKey", "Gammas", "Block"} {
				for _, m := range [][2]string{{"Marshal", "Unmarshal"}, {"MarshalText", "UnmarshalText"}, {"GobEncode", "GobDecode"}} {
					a.codec(t, m[0], m[1])
				}
			}
		},
	})
}

func (a *algCtx) polynomials() {
	c := a.c
	x1 := func(i *num) *num { return addN(i, numI(1)) }
	r := a.run(scPkg+"KeyperX", nil)
	r.is("evaluation points", "x coordinate of a keyper", 0, func(o *aout) val { return x1(r.args[0].(*num)) })

	r = a.run(scMethod("Polynomial", "Eval"), nil)
	r.is("evaluation of polynomials", "value", 0, func(o *aout) val {
		p, x := r.list(0), r.number(1)
		return sumOf(mkLen(p), func(j *num) *num { return mulN(numAt(p, j), powN(x, j)) })
	})
	r.clean(true, false)
	r = a.run(scMethod("Polynomial", "EvalForKeyper"), nil)
	r.is("evaluation of polynomials", "value for a keyper", 0, func(o *aout) val {
		p, x := r.list(0), x1(r.args[1].(*num))
		return sumOf(mkLen(p), func(j *num) *num { return mulN(numAt(p, j), powN(x, j)) })
	})
	r.clean(true, false)
	r = a.run(scMethod("Polynomial", "Gammas"), nil)
	r.is("commitments", "commitments of a polynomial", 0, func(o *aout) val {
		p := r.list(0)
		return vec(mkLen(p), func(j *num) val { return g2of(numAt(p, j)) })
	})
	r.clean(true, true)
	pi := func(r *algRun, i int, x *num) *grp {
		g := r.list(i)
		return gsumOf("G2", mkLen(g), func(j *num) *grp { return scaleG(atG("G2", at(g, j, false)), powN(x, j)) })
	}
	r = a.run(scMethod("Gammas", "Pi"), nil)
	r.is("commitments", "value of the commitments at a point", 0, func(o *aout) val { return pi(r, 0, r.number(1)) })
	r.clean(true, true)

	// verification of evaluations
	r = a.run(scPkg+"VerifyPolyEval", nil)
	if r != nil {
		a.try("VerifyPolyEval", func() {
			g := r.list(2)
			r.holdsIff("verification of evaluations", "VerifyPolyEval", 0,
				mkCmp("eq", []val{mkLen(g), r.args[3]}),
				mkCmp("eq", []val{g2of(r.number(1)), pi(r, 2, x1(r.args[0].(*num)))}))
		})
	}
	r.clean(true, true)
	// an honest dealer
	p := a.run(scMethod("Polynomial", "EvalForKeyper"), nil)
	gf, vf := a.e.P.Func(scMethod("Polynomial", "Gammas")), a.e.P.Func(scPkg+"VerifyPolyEval")
	if p != nil && gf != nil && vf != nil {
		for _, o := range p.outs {
			if o.pan {
				continue
			}
			o := o
			g := a.runOn(gf, p.x, o.st.clone(), func(q *algRun) { q.args[0] = p.args[0] })
			if g == nil {
				continue
			}
			for _, og := range g.outs {
				if og.pan {
					continue
				}
				og := og
				v := a.runOn(vf, p.x, og.st.clone(), func(q *algRun) {
					q.args[0], q.args[1], q.args[2] = p.args[1], o.res[0], og.res[0]
					q.args[3] = mkLen(p.list(0))
				})
				v.alwaysTrue("honest values verify", "evaluation by an honest dealer", 0)
			}
		}
	}
	// range checks
	r = a.run(scPkg+"ValidEval", nil)
	if r != nil {
		a.try("ValidEval", func() { a.inOrder(r, r.number(0)) })
	}
	r = a.run(scPkg+"NewPolynomial", nil)
	if r != nil {
		oks, bad := r.split()
		q := r.list(0)
		v := freshIter(subN(mkLen(q), numI(1)))
		co := numAt(q, numA(v))
		all := func(b *boolv) *boolv { return allB(v, numI(0), mkLen(q), b) }
		nonneg, below := mkCmp("le", []val{addN(co, numI(1))}).not(), mkCmp("le", []val{addN(subN(co, groupOrder()), numI(1))})
		for _, o := range oks {
			o := o
			a.try("NewPolynomial", func() {
				for _, b := range []*boolv{all(nonneg), all(below), mkCmp("eq", []val{mkLen(q), numI(0)}).not()} {
					d := r.decided(o, b)
					if d == nil {
						d = a.conjunct(o, b)
					}
					c.must(d != nil && *d, "range of coefficients", fnName(r.f), "accepts coefficients without ensuring "+b.key()+": knows "+cut(guardsOf(o)))
				}
				useGuards(o.st)
				c.must(r.content(o, 0).key() == renorm(q).key(), "range of coefficients", fnName(r.f), "the coefficients are not the given ones: "+cut(r.content(o, 0).key()))
			})
		}
		c.must(len(oks) > 0 && len(bad) > 0, "range of coefficients", fnName(r.f), "accepts everything or nothing")
	}
	r.clean(true, true)
	r = a.run(scPkg+"RandomPolynomial", nil)
	if r != nil {
		oks, _ := r.split()
		for _, o := range oks {
			o := o
			a.try("RandomPolynomial", func() {
				q, _ := r.content(o, 0).(*seq)
				n := addN(r.args[1].(*num), numI(1))
				v := freshIter(subN(n, numI(1)))
				ok := false
				have := "nil"
				if q != nil {
					have = q.key()
					at := numAt(q, numA(v)).theAtom()
					ok = renorm(mkLen(q)).key() == renorm(n).key() && at != nil && at.op == "random" && len(at.args) == 3 &&
						strings.Contains(at.args[0].key(), "a0") && at.args[1].key() == groupOrder().key() && at.args[2].key() == numA(v).key()
				}
				c.must(ok, "random polynomials", fnName(r.f), "the coefficients are not degree+1 independent draws below the group order: "+cut(have))
			})
		}
	}
	r.clean(true, true)
}

// conjunct finds a condition among the conditions for all elements.
func (a *algCtx) conjunct(o *aout, want *boolv) *bool {
	if want.a == nil || want.a.op != "all" {
		return nil
	}
	for _, g := range o.st.guards {
		if g.a == nil || g.a.op != "all" || g.neg || g.a.args[0].key() != want.a.args[0].key() || g.a.args[1].key() != want.a.args[1].key() {
			continue
		}
		v := freshIter(nil)
		have, ok := openBinder(g.a, numA(v))[0].(*boolv)
		w, ok2 := openBinder(want.a, numA(v))[0].(*boolv)
		if !ok || !ok2 {
			continue
		}
		good := true
		for _, alt := range alternatives(have) {
			one := alt.key() == w.key()
			parts := []val{alt}
			if alt.a != nil && alt.a.op == "and" && !alt.neg {
				parts = alt.a.args
			}
			st := &astate{guards: append([]*boolv{}, o.st.guards...)}
			for _, x := range parts {
				one = one || x.key() == w.key()
				if b, ok := x.(*boolv); ok {
					st.guards = append(st.guards, b)
				}
			}
			if !one {
				useGuards(st)
				h, ok := renorm(w).(*boolv)
				one = ok && h.c != nil && *h.c
				noGuards()
			}
			good = good && one
		}
		if good {
			return boolp(true)
		}
	}
	return nil
}

// alternatives splits a disjunction.
func alternatives(b *boolv) (r []*boolv) {
	if b.a == nil || b.a.op != "and" || !b.neg {
		return []*boolv{b}
	}
	for _, x := range b.a.args {
		if y, ok := x.(*boolv); ok {
			r = append(r, alternatives(y.not())...)
		}
	}
	return
}

func boolp(b bool) *bool { return &b }

// inOrder requires that the answer is 0 <= n < order.
func (a *algCtx) inOrder(r *algRun, n *num) {
	nonneg, below := mkCmp("le", []val{addN(n, numI(1))}).not(), mkCmp("le", []val{addN(subN(n, groupOrder()), numI(1))})
	r.holdsIff("range of evaluations", "value is valid iff it is in [0, order)", 0, nonneg, below)
}

func (a *algCtx) shares() {
	c := a.c
	r := a.run(scPkg+"ComputeEonSecretKeyShare", nil)
	r.is("key shares", "secret key share", 0, func(o *aout) val {
		q := r.list(0)
		return sumOf(mkLen(q), func(i *num) *num { return numAt(q, i) })
	})
	r.clean(true, true)
	if r != nil {
		for _, o := range r.outs {
			a.try("ComputeEonSecretKeyShare", func() {
				n := r.content(o, 0).(*num)
				c.must(n.red, "scalars are reduced", fnName(r.f), "the secret key share is not reduced modulo the group order")
			})
		}
	}
	r = a.run(scPkg+"ComputeEonPublicKeyShare", nil)
	r.is("key shares", "public key share", 0, func(o *aout) val {
		gs := r.list(1)
		x := addN(r.args[0].(*num), numI(1))
		return gsumOf("G2", mkLen(gs), func(i *num) *grp {
			el := at(gs, i, false)
			q := listOfElem(el)
			return gsumOf("G2", mkLen(q), func(j *num) *grp { return scaleG(atG("G2", at(q, j, false)), powN(x, j)) })
		})
	})
	r.clean(true, true)
	r = a.run(scPkg+"ComputeEonPublicKey", nil)
	r.is("key shares", "public key", 0, func(o *aout) val {
		gs := r.list(0)
		return gsumOf("G2", mkLen(gs), func(i *num) *grp { return atG("G2", at(listOfElem(at(gs, i, false)), numI(0), false)) })
	})
	r.clean(true, false)

	r = a.run(scPkg+"ComputeEpochSecretKeyShare", nil)
	r.is("key shares", "epoch secret key share", 0, func(o *aout) val { return scaleG(r.point(1), r.number(0)) })
	r.clean(true, true)
	r = a.run(scPkg+"VerifyEpochSecretKeyShare", nil)
	if r != nil {
		a.try("VerifyEpochSecretKeyShare", func() {
			l := grpA("GT", &atom{op: "pair", args: []val{r.point(2).only(), r.point(1).only()}})
			q := grpA("GT", &atom{op: "pair", args: []val{r.point(0).only(), &atom{op: "g2"}}})
			r.holdsIff("verification of shares", "VerifyEpochSecretKeyShare", 0, mkCmp("eq", []val{l, q}))
		})
	}
	r.clean(true, true)
	// an honest keyper
	vf := a.e.P.Func(scPkg + "VerifyEpochSecretKeyShare")
	s := a.run(scPkg+"ComputeEpochSecretKeyShare", nil)
	if s != nil && vf != nil {
		for _, o := range s.outs {
			o := o
			v := a.runOn(vf, s.x, o.st.clone(), func(q *algRun) {
				q.args[0], q.args[2] = o.res[0], s.args[1]
				q.setPoint(1, g2of(s.number(0)))
			})
			v.alwaysTrue("honest values verify", "share of an honest keyper", 0)
		}
	}

	// combination
	r = a.run(scPkg+"ComputeEpochSecretKey", nil)
	r.is("combination of shares", "epoch secret key", 0, func(o *aout) val {
		idx, sh := r.list(0), r.list(1)
		n := mkLen(sh)
		return gsumOf("G1", n, func(i *num) *grp { return scaleG(atG("G1", at(sh, i, false)), lagrange(idx, i)) })
	})
	if r != nil {
		a.try("ComputeEpochSecretKey", func() {
			idx, sh := r.list(0), r.list(1)
			r.failsIff("combination of shares", "ComputeEpochSecretKey",
				mkCmp("eq", []val{mkLen(idx), mkLen(sh)}), mkCmp("eq", []val{mkLen(idx), r.args[2]}))
		})
	}
	r.clean(true, true)

	// verification of an epoch key
	for _, n := range []string{"VerifyEpochSecretKey", "VerifyEpochSecretKeyDeterministic"} {
		k := inNum("secret")
		r = a.run(scPkg+n, func(q *algRun) {
			bs := q.list(2)
			dst := litSeq()
			for _, b := range []byte("SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_") {
				dst = cat(dst, litSeq(numI(int64(b))))
			}
			id := grpA("G1", &atom{op: "hashToG1", args: []val{cat(litSeq(numI(1)), bs), dst}})
			q.setPoint(0, scaleG(id, k))
			q.setPoint(1, g2of(k))
		})
		r.alwaysTrue("honest values verify", "the right epoch secret key", 0)
		if u := a.run(scPkg+n, nil); u != nil {
			oks, _ := u.split()
			for _, o := range oks {
				if b, ok := o.res[0].(*boolv); ok && u.feasible(o) {
					d := u.decided(o, b)
					c.must(d == nil || !*d || decrypted(o), "wrong keys are rejected", fnName(u.f), "an arbitrary key is accepted if "+cut(guardsOf(o)))
				}
			}
		}
		r.clean(true, n == "VerifyEpochSecretKeyDeterministic")
	}
	r = a.run(scPkg+"ComputeEpochID", nil)
	r.is("epoch ids", "epoch id", 0, func(o *aout) val {
		dst := litSeq()
		for _, b := range []byte("SHUTTER_V01_BLS12381G1_XMD:SHA-256_SSWU_RO_") {
			dst = cat(dst, litSeq(numI(int64(b))))
		}
		return grpA("G1", &atom{op: "hashToG1", args: []val{cat(litSeq(numI(1)), r.list(0)), dst}})
	})
	r.clean(true, true)
}

// lagrange is the coefficient of share i at 0 for the points 1+idx.
func lagrange(idx *seq, i *num) *num {
	n := mkLen(idx)
	v := freshIter(subN(n, numI(1)))
	xi, xk := addN(numAt(idx, i), numI(1)), addN(numAt(idx, numA(v)), numI(1))
	other := mkCmp("eq", []val{subN(xk, xi), numI(0)}).not()
	return prodN(v, numI(0), n, mulN(xk, invN(subN(xk, xi))), other)
}

// only is the single base point of an unscaled point.
func (g *grp) only() *atom {
	if len(g.m) != 1 {
		panic(algErr{"no single point: " + g.key()})
	}
	for _, t := range g.m {
		return t.a
	}
	return nil
}

// listOfElem is the list that an element of a list of lists points to.
func listOfElem(v val) *seq {
	switch w := unbox(v).(type) {
	case *seq:
		return w
	case *atom:
		return whole(w, atomLen(w))
	}
	panic(algErr{"no list: " + v.key()})
}

// sweepPure requires of all functions of the package that are understood that they do not change their arguments.
func (a *algCtx) sweepPure() {
	for _, f := range a.e.P.Functions() {
		n := fnName(f)
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || !strings.Contains(n, scPkg) || strings.Contains(n, "shcrypto/shbls") {
			continue
		}
		if m := f.Name(); strings.HasPrefix(m, "Unmarshal") || strings.HasPrefix(m, "GobDecode") || strings.HasPrefix(m, "init") || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		f := f
		x := newAlg(a.e, u64bytes)
		var outs []*aout
		func() {
			defer func() { recover() }()
			outs, _ = x.algFunc(f)
		}()
		if len(outs) == 0 {
			continue
		}
		r := &algRun{c: a.c, x: x, f: f, outs: outs}
		r.clean(true, false)
		a.c.fns[f] = true
	}
}

// codec decides one pair of encoder and decoder of a type.
func (a *algCtx) codec(t, enc, dec string) {
	find := func(m string) *ssa.Function {
		if f := a.e.P.Func(scMethod(t, m)); f != nil {
			return f
		}
		return a.e.P.Func("(" + scPkg + t + ")." + m)
	}
	ef, df := find(enc), find(dec)
	if ef == nil || df == nil {
		return
	}
	// decoding what was encoded
	r := a.runOn(ef, newAlg(a.e, a.opq...), newState(), nil)
	if r != nil {
		oks, _ := r.split()
		for _, o := range oks {
			if !r.feasible(o) || strings.Contains(" "+guardsOf(o)+" ", " isnil:in:a0* ") {
				continue // nil encodes to nothing
			}
			o := o
			var recv val
			d := a.runOn(df, r.x, o.st.clone(), func(q *algRun) {
				recv = r.x.symbolic(q.st, df.Params[0].Type(), "recv")
				q.args[0], q.args[1] = recv, o.res[0]
			})
			if d == nil {
				continue
			}
			for _, p := range d.outs {
				if p.pan || !d.feasible(p) {
					continue
				}
				p := p
				a.try(fnName(df), func() {
					oks, _ := (&algRun{x: d.x, f: d.f, outs: []*aout{p}}).split()
					if len(oks) == 0 {
						ok := false
						for _, g := range p.st.guards {
							k := g.key()
							ok = ok || g.a != nil && strings.HasPrefix(g.a.op, "InG") && g.neg || strings.Contains(k, groupOrder().key())
						}
						a.c.must(ok, "decoding inverts encoding", fnName(df), "an encoded value is rejected although its points are valid: if "+cut(guardsOf(p)))
						return
					}
					useGuards(p.st)
					pt := df.Params[0].Type()
					have := r.x.shownNorm(p.st, recv, pt)
					var want string
					if isPtr(ef.Params[0].Type()) {
						want = r.x.shownNorm(o.st, r.args[0], pt)
					} else {
						want = "&" + r.x.shownNorm(o.st, r.args[0], ef.Params[0].Type())
					}
					// numbers are not negative
					n := r.x.shownNorm(o.st, r.args[0], ef.Params[0].Type())
					n = strings.TrimPrefix(n, "&")
					have = strings.ReplaceAll(have, "os2ip(‹bebytes("+n+")[0:len(bebytes("+n+"))]›)", n)
					a.c.must(have == want, "decoding inverts encoding", fnName(df), "decodes "+cut(have)+" from the encoding of "+cut(want)+" (if "+cut(guardsOf(p))+")")
				})
			}
		}
	}
	// arbitrary bytes
	d := a.runOn(df, newAlg(a.e, a.opq...), newState(), nil)
	if d == nil {
		return
	}
	d.clean(false, true, "in:a0")
	oks, _ := d.split()
	for _, o := range oks {
		if !d.feasible(o) {
			continue
		}
		o := o
		a.try(fnName(df), func() {
			useGuards(o.st)
			var check func(v val, pre []*atom, his []*num)
			check = func(v val, pre []*atom, his []*num) {
				need := func(b *boolv) {
					if b.c != nil {
						a.c.must(*b.c, "decoded points are valid", fnName(df), "")
						return
					}
					for i := len(pre) - 1; i >= 0; i-- {
						b = allB(pre[i], numI(0), his[i], b)
					}
					dd := d.decided(o, b)
					if dd == nil {
						dd = a.conjunct(o, renorm(b).(*boolv))
					}
					a.c.must(dd != nil && *dd, "decoded points are valid", fnName(df), "accepts a point without ensuring "+cut(b.key())+" (only "+cut(guardsOf(o))+")")
				}
				switch w := v.(type) {
				case *grp:
					for _, t := range w.m {
						if t.a.op == "point" {
							need(boolOf(mkAtom("badpoint", t.a.s, t.a.args)).not())
							need(boolOf(mkAtom("In"+w.kind, "", []val{grpA(w.kind, t.a)})))
						}
					}
				case *box:
					check(w.v, pre, his)
				case *seq:
					for _, s := range w.segs {
						for _, l := range s.lit {
							check(l, pre, his)
						}
						if s.body != nil {
							v := freshIter(subN(s.n, numI(1)))
							check(at(w, numA(v), false), append(pre, v), append(his, s.n))
						}
					}
				case *strct:
					for _, n := range w.names {
						check(w.f[n], pre, his)
					}
				}
			}
			if t == "EonSecretKeyShare" && dec == "Unmarshal" {
				n := d.x.load(o.st, d.args[0], df.Params[0].Type().Underlying().(*types.Pointer).Elem()).(*num)
				dd := d.decided(o, mkCmp("le", []val{addN(subN(n, groupOrder()), numI(1))}))
				a.c.must(dd != nil && *dd, "decoded shares are below the group order", fnName(df), "accepts a share without ensuring that it is below the group order")
			}
			a.eachContent(d, o, d.args[0], df.Params[0].Type(), func(v val) { check(renorm(v), nil, nil) })
			if t == "EncryptedMessage" && dec == "Unmarshal" {
				q := d.list(1)
				v := mkCmp("eq", []val{at(q, numI(0), true), numI(3)})
				dd := d.decided(o, v)
				a.c.must(dd != nil && *dd, "version of messages", fnName(df), "accepts a message without checking that its version is 3")
			}
			if (t == "EncryptedMessage" || t == "Gammas") && dec != "UnmarshalText" {
				e := a.runOn(ef, d.x, o.st.clone(), func(q *algRun) { q.args[0] = d.args[0] })
				if e == nil {
					return
				}
				for _, p := range e.outs {
					if p.pan || !e.feasible(p) {
						continue
					}
					useGuards(p.st)
					want := mkCmp("eq", []val{mkLen(e.x.seqOf(p.st, p.res[0])), mkLen(d.list(1))})
					dd := e.decided(p, want)
					a.c.must(dd != nil && *dd, "all bytes are decoded", fnName(df), "accepts data of another length than that of the value: "+want.key()+" (if "+cut(guardsOf(p))+")")
				}
			}
		})
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// eachContent visits the values that something consists of.
func (a *algCtx) eachContent(r *algRun, o *aout, v val, t types.Type, f func(val)) {
	switch p := v.(type) {
	case *ptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && p.idx == nil {
			if s := r.x.isStruct(pt.Elem()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					ft := s.Field(i).Type()
					a.eachContent(r, o, r.x.load(o.st, r.x.fieldPtr(o.st, p, s.Field(i).Name(), ft), ft), ft, f)
				}
				return
			}
			a.eachContent(r, o, r.x.load(o.st, p, pt.Elem()), pt.Elem(), f)
		}
	case *sref:
		f(r.x.seqOf(o.st, p))
	case *strct:
		s := r.x.isStruct(t)
		for i, n := range p.names {
			a.eachContent(r, o, p.f[n], s.Field(i).Type(), f)
		}
	default:
		f(v)
	}
}

func listOfArray(v val, n int64) *seq {
	switch w := v.(type) {
	case *seq:
		return w
	case *atom:
		return whole(w, numI(n))
	}
	panic(algErr{"no array: " + v.key()})
}

// shownNorm renders a value after normalisation.
func (x *alg) shownNorm(st *astate, v val, t types.Type) string {
	switch p := v.(type) {
	case *ptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok && p.idx == nil {
			return "&" + x.shownNorm(st, x.load(st, p, pt.Elem()), pt.Elem())
		}
	case *sref:
		q := x.seqOf(st, p)
		if et := elemType(t); et != nil && isPtr(et) && len(q.segs) == 1 {
			// lists of points are compared by their elements
			n := mkLen(q)
			k := x.kind(et.Underlying().(*types.Pointer).Elem())
			if k == "G1" || k == "G2" {
				return renorm(vec(n, func(i *num) val { return asGrp(k, at(q, i, false)) })).key()
			}
		} else if et != nil && isArray(et) {
			v := freshIter(subN(mkLen(q), numI(1)))
			return renorm(comp(v, mkLen(q), litSeq(listOfArray(at(q, numA(v), false), et.Underlying().(*types.Array).Len())))).key()
		}
		return renorm(q).key()
	case *strct:
		s := x.isStruct(t)
		r := "{"
		for i, n := range p.names {
			r += n + ": " + x.shownNorm(st, p.f[n], s.Field(i).Type()) + "; "
		}
		return r + "}"
	}
	return renorm(v).key()
}

// decrypted tells whether the conditions of an outcome include that a message was recovered.
func decrypted(o *aout) bool {
	for _, g := range o.st.guards {
		if g.a != nil && g.a.op == "eq" && !g.neg {
			if _, ok := g.a.args[0].(*seq); ok {
				return true
			}
		}
	}
	return false
}
