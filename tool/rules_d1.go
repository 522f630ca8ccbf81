package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the key generation protocol (puredkg).

func init() {
	register(&Check{ID: "C36", Mods: []string{"shlib", "shuttermint"},
		Rule: "Every write to the received commitments, evaluations, accusations and apologies has path conditions implying that the message is for this key generation, that its phase is not over, that nothing is stored in its place, that its contents are well-formed (degree of the threshold; evaluation in range; own receiver), and stores exactly the message's contents under exactly its sender; a handler returns no error only if it stored the message, and stores nothing otherwise; the phase only changes to the next one.",
		Min:  map[string]int{"stored": 4, "reported": 8, "phase": 4, "initial": 1, "elsewhere": 1},
		Run:  checkC36})
	register(&Check{ID: "C37", Mods: []string{"shlib"},
		Rule: "Starting the dealing phase draws a random polynomial of the threshold's degree, keeps it, returns its commitment and, for every other keyper, its evaluation for this keyper, and stores the one for the keyper itself. Starting the accusing phase returns an accusation for a dealer exactly if its evaluation or commitment is missing or they do not match. Starting the apologizing phase returns for each accusation against the keyper the evaluation for the accuser. No loop leaves out an element.",
		Min:  map[string]int{"polynomial": 2, "dealing": 3, "accusing": 2, "apologizing": 2},
		Run:  checkC37})
}

const dkgPkg = "shlib/puredkg."

// dkgPhases returns the values of the phases by name.
func dkgPhases(c *Ctx, e *Engine) map[string]string {
	r := map[string]string{}
	for _, p := range e.P.Prog.AllPackages() {
		if p.Pkg.Name() != "puredkg" || !e.P.InRepoPkg(p.Pkg) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok && typeBase(k.Type()) == "puredkg.Phase" {
				r[n] = k.Val().ExactString()
			}
		}
	}
	for i, n := range []string{"Off", "Dealing", "Accusing", "Apologizing", "Finalized"} {
		c.must(r[n] == []string{"0", "1", "2", "3", "4"}[i], "phase", "constant "+n, "the phases are not in order")
	}
	return r
}

// cryptoOpaque makes the functions of the crypto package opaque, apart from those that only forward.
func cryptoOpaque(e *Engine, names ...string) {
	if e.Opaque == nil {
		e.Opaque = map[*ssa.Function]bool{}
	}
	for _, f := range e.P.Functions() {
		for _, n := range names {
			if fnName(f) == n {
				e.Opaque[f] = true
			}
		}
	}
}

var algebra = []string{
	"(*shlib/shcrypto.Polynomial).Eval", "(*shlib/shcrypto.Polynomial).Gammas", "(*shlib/shcrypto.Gammas).Pi",
	"shlib/shcrypto.KeyperX", "shlib/shcrypto.RandomPolynomial", "shlib/shcrypto.NewPolynomial", "shlib/shcrypto.VerifyPolyEval", "shlib/shcrypto.ValidEval",
	"shlib/shcrypto.ZeroGammas", "shlib/shcrypto.ComputeEonSecretKeyShare", "shlib/shcrypto.ComputeEonPublicKey", "shlib/shcrypto.ComputeEonPublicKeyShare",
}

func checkC36(c *Ctx) {
	e := NewEngine(c.shl().P)
	cryptoOpaque(e, algebra...)
	ph := dkgPhases(c, e)
	self := Param(0)
	own := func(n string) M { return Fld(self, n) }
	kinds := map[string]struct{ msg, phase string }{
		"Commitments": {"PolyCommitmentMsg", "Dealing"},
		"Evals":       {"PolyEvalMsg", "Dealing"},
		"Accusations": {"AccusationMsg", "Accusing"},
		"Apologies":   {"ApologyMsg", "Apologizing"},
	}
	stored := map[string]bool{}
	var roots []*ssa.Function
	for _, f := range e.P.Functions() {
		if strings.HasPrefix(fnName(f), "(*shlib/puredkg.PureDKG).") && f.Object() != nil && f.Object().Exported() {
			roots = append(roots, f)
		}
	}
	isMsg := func(v *Expr) bool { return v != nil && v.T != nil && strings.HasSuffix(typeBase(v.T), "Msg") }
	for _, root := range roots {
		root := root
		// the message among the parameters
		var msg *Expr
		kind := ""
		for i, p := range root.Params {
			for k, d := range kinds {
				if typeBase(p.Type()) == "puredkg."+d.msg {
					msg, kind = &Expr{Op: "param", S: "$" + string(rune('0'+i)), T: p.Type()}, k
				}
			}
		}
		_ = isMsg
		c.walk(e, root, nil, func(s *CSite) {
			switch s.Kind {
			case "store", "mapupdate", "delete":
			case "call":
				if nameEnds(s.Name, "builtin.clear") {
					break
				}
				return
			default:
				return
			}
			o, n := wField(s)
			if o != "puredkg.PureDKG" {
				return
			}
			switch n {
			case "Phase":
				c.each(s, "phase", func(a *CAlt) bool {
					old := own("Phase")
					return len(a.Args) == 1 && (Bin("+", old, Num(1))(a.Args[0]) || a.Facts.Eq(Bin("+", old, Num(1)), Is(a.Args[0])) || a.Facts.Eq(old, Bin("-", Is(a.Args[0]), Num(1))) ||
						constStep(a, old))
				}, "the phase may change to another one than the next")
				return
			case "Commitments", "Evals", "Accusations", "Apologies":
			default:
				return
			}
			if kind == "" {
				// the keyper's own evaluation is stored when it deals
				c.each(s, "stored", func(a *CAlt) bool {
					return n == "Evals" && s.Kind == "store" && a.Target.Op == "index" && a.Facts.Eq(Is(a.Target.Args[1]), own("Keyper")) || n == "Evals" && s.Kind == "store" && Idx(own("Evals"), own("Keyper"))(a.Target)
				}, "what was received is changed without a message")
				return
			}
			if !c.must(n == kind && (s.Kind == "store" || s.Kind == "mapupdate"), "stored", s.where(e.P), "a message changes what was received by other kinds of messages") {
				return
			}
			stored[kind] = true
			c.each(s, "stored", func(a *CAlt) bool {
				f := a.Facts
				m := func(n string) M { return Fld(Is(msg), n) }
				if !f.Eq(m("Eon"), own("Eon")) {
					return false
				}
				if !f.Le(own("Phase"), K(ph[kinds[kind].phase])) {
					return false
				}
				var key, val *Expr
				if s.Kind == "store" {
					if a.Target.Op != "index" || !own(kind)(a.Target.Args[0]) {
						return false
					}
					key, val = a.Target.Args[1], a.Args[0]
				} else {
					if !own(kind)(a.Target) {
						return false
					}
					key, val = a.Args[0], a.Args[1]
				}
				old := Idx(own(kind), Is(key))
				pair := func(k *Expr) bool {
					return k.Op == "struct" && len(k.Fields) == 2 && m("Accuser")(k.Fields["Accuser"]) && m("Accused")(k.Fields["Accused"])
				}
				valid := func(v *Expr) bool {
					return f.True(Call("shcrypto.ValidEval", Is(v)))
				}
				switch kind {
				case "Commitments":
					return m("Sender")(strip(key)) && m("Gammas")(val) && f.IsNil(old) &&
						polySame(f, polyOf(&Expr{Op: "len", Args: []*Expr{val}}), polyOf(&Expr{Op: "field", S: "Threshold", Args: []*Expr{{Op: "param", S: "$0"}}}))
				case "Evals":
					return m("Sender")(strip(key)) && m("Eval")(val) && f.IsNil(old) && f.Eq(m("Receiver"), own("Keyper")) && valid(val)
				case "Accusations":
					return pair(key) && (f.NotHas(own(kind), Is(key)))
				case "Apologies":
					return pair(key) && m("Eval")(val) && f.NotHas(own(kind), Is(key)) && valid(val)
				}
				return false
			}, "a message is stored although it is not for this key generation, too late, not the first or not well-formed, or it is not stored as it was sent")
		})
		if kind == "" {
			continue
		}
		isStore := func(x *Expr) bool {
			return x.Op == "call" && (strings.HasPrefix(x.S, "store:"+kind) || strings.HasPrefix(x.S, "mapupdate:"+kind))
		}
		c.returns(e, root, "reported", func(a *CAlt) bool {
			if len(a.Args) != 1 {
				return false
			}
			if isPanic(a.Args[0]) {
				return false
			}
			did := a.Facts.Did(isStore)
			if Nil(a.Args[0]) || a.Facts.IsNil(Is(a.Args[0])) {
				return did
			}
			return !did && nonNilResult(a, a.Args[0])
		}, "a message is stored and reported as an error, or dropped without an error")
	}
	for k := range kinds {
		c.must(stored[k], "stored", k, "no message is stored here")
	}
	// the initial state
	if f := c.pkgFunc(e, dkgPkg+"NewPureDKG"); f != nil {
		e.Summary(f)
		c.returns(e, f, "initial", func(a *CAlt) bool {
			x := a.Args[0]
			if x.Op == "addr" {
				x = x.Args[0]
			}
			if x.Op != "struct" {
				return false
			}
			for i, p := range f.Params {
				n := ""
				for k := range x.Fields {
					if strings.EqualFold(k, p.Name()) {
						n = k
					}
				}
				if n == "" || !Param(i)(strip(x.Fields[n])) {
					return false
				}
			}
			for k := range kinds {
				v := x.Fields[k]
				if v == nil || v.Op != "alloc" && v.Op != "make" && !freshRoot(v) {
					return false
				}
			}
			return (x.Fields["Phase"] == nil || isZero(x.Fields["Phase"]) || K(ph["Off"])(x.Fields["Phase"])) && (x.Fields["Polynomial"] == nil || zeroValue(x.Fields["Polynomial"]))
		}, "a new key generation does not start empty with the parameters given")
	}
	// nobody else changes a key generation's state
	sh := c.shm()
	n := 0
	for _, f := range sh.P.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				o, fld := changed(in)
				if o == "puredkg.PureDKG" {
					c.must(false, "elsewhere", sh.P.pos(in), "the key generation's "+fld+" is changed from outside")
				}
			}
		}
		n++
	}
	c.must(n > 0, "elsewhere", "whole program", "no functions")
}

// nonNilResult: the error returned is certainly one.
func nonNilResult(a *CAlt, x *Expr) bool {
	return a.Facts.NonNil(Is(x)) || nonNilExpr(x)
}

func polySame(f *Facts, a, b poly) bool { return f.PolyLe(a, b) && f.PolyLe(b, a) }

// constStep: the phase is known to be the one before the constant stored.
func constStep(a *CAlt, old M) bool {
	n, ok := smallInt(strip(a.Args[0]))
	return ok && a.Facts.Eq(old, Num(int(n)-1))
}

// comprehension: V is a list that a loop over a whole domain builds: skip must hold for the elements of the domain for
// which nothing is appended, keep for what is appended. It returns the loop, or nil and what is wrong.
func comprehension(e *Engine, V *Expr, skip func(f *Facts) bool, keep func(f *Facts, x *Expr) bool) (*Loop, *ssa.Function, string) {
	V = localVar(V)
	if V == nil {
		return nil, nil, "the list is not built in a loop"
	}
	why := "the list is not built in a loop"
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if len(l.Edges) == 0 || len(loopVars(l, V)) == 0 {
				continue
			}
			bad := ""
			ok := inductive(l, V, func(f *Facts, x *Expr) bool {
				if zeroValue(x) || x.Op == "alloc" || x.Op == "list" && len(x.Args) == 0 || x.Op == "make" {
					return true
				}
				bad = "the list does not start empty"
				return false
			}, func(f *Facts, x *Expr) bool {
				if x.Key() == V.Key() {
					if e.Implies(f, skip) {
						return true
					}
					bad = "an element is left out where it must not be; known on such a path:\n        " + shortFacts(f, false)
					return false
				}
				if !isAppend(x) || len(x.Args) != 2 || x.Args[0].Key() != V.Key() || x.Args[1].Op != "list" || len(x.Args[1].Args) != 1 {
					bad = "something else than one element is appended"
					return false
				}
				if e.Implies(f, func(f *Facts) bool { return keep(f, x.Args[1].Args[0]) }) {
					return true
				}
				bad = "the element appended is not the right one or must not be appended: " + short(x.Args[1].Args[0]) + "; known on such a path:\n        " + shortFacts(f, false)
				return false
			})
			if ok {
				return l, fn, ""
			}
			if bad != "" {
				why = bad
			}
		}
	}
	return nil, nil, why
}

// below returns what is known to be less than the bound.
func below(f *Facts, bound M) []*Expr {
	var r []*Expr
	for _, k := range f.keys() {
		if g := f.m[k]; g.Op == "lt" && (bound(g.A[1]) || bound(strip(g.A[1]))) {
			r = append(r, strip(g.A[0]))
		}
	}
	return r
}

func checkC37(c *Ctx) {
	e := NewEngine(c.shl().P)
	cryptoOpaque(e, algebra...)
	self := Param(0)
	own := func(n string) M { return Fld(self, n) }
	evalFor := func(i *Expr) M {
		return Call("Polynomial).Eval", own("Polynomial"), Call("shcrypto.KeyperX", Strip(Is(strip(i)))))
	}
	whole := func(f *Facts) bool {
		return f.All(own("NumKeypers"), func(*Facts) bool { return true })
	}
	// dealing
	deal := c.method(e, dkgPkg+"PureDKG", "StartPhase1Dealing")
	if deal == nil {
		return
	}
	random := func(f *Facts, x *Expr) bool {
		return f.matchUpTo(x, Ext(And(Call("shcrypto.RandomPolynomial", Global("rand.Reader")), func(y *Expr) bool {
			return polySame(f, polyOf(strip(y.Args[1])), polyOf(selfField("Threshold")).add(polyConst(1), -1))
		}), 0)) && true
	}
	c.walk(e, deal, nil, func(s *CSite) {
		if o, n := wField(s); s.Kind == "store" && o == "puredkg.PureDKG" && n == "Polynomial" {
			c.each(s, "polynomial", func(a *CAlt) bool {
				x := a.Args[0]
				return random(a.Facts, x) && a.Facts.IsNil(Ext(Is(strip(x).Args[0]), 1))
			}, "the polynomial is not a random one of the threshold's degree")
		}
	})
	c.returns(e, deal, "polynomial", func(a *CAlt) bool {
		if len(a.Args) != 3 {
			return true // panics
		}
		if !Nil(a.Args[2]) {
			return nonNilResult(a, a.Args[2])
		}
		return a.Facts.Did(func(x *Expr) bool { return x.Op == "call" && strings.HasPrefix(x.S, "store:Polynomial") })
	}, "the polynomial is not kept, or a failure is not reported")
	sum := e.Summary(deal)
	for _, o := range sum.Outs {
		if len(o.Results) != 3 || !Nil(o.Results[2]) {
			continue
		}
		m := o.Results[0]
		f := o.Facts
		c.must(m.Op == "struct" && own("Eon")(strip(m.Fields["Eon"])) && own("Keyper")(strip(m.Fields["Sender"])) && f.matchUpTo(m.Fields["Gammas"], Call("Polynomial).Gammas", f.upTo(own("Polynomial")))),
			"dealing", "commitment returned by "+fnName(deal), "the commitment returned is not the one of the polynomial kept: "+short(m))
		c.must(whole(f), "dealing", "evaluations returned by "+fnName(deal), "the evaluations are not computed for all keypers")
		_, _, why := comprehension(e, o.Results[1], func(f *Facts) bool {
			// the own one is stored
			return exists(below(f, own("NumKeypers")), func(i *Expr) bool {
				return f.Eq(Is(i), own("Keyper")) && f.Did(func(x *Expr) bool {
					return x.Op == "call" && strings.HasPrefix(x.S, "store:Evals") && len(x.Args) == 2 && x.Args[0].Op == "index" &&
						(own("Keyper")(strip(x.Args[0].Args[1])) || Is(i)(strip(x.Args[0].Args[1]))) && (evalFor(i)(x.Args[1]) || evalFor(selfField("Keyper"))(x.Args[1]))
				})
			})
		}, func(f *Facts, x *Expr) bool {
			return x.Op == "struct" && exists(below(f, own("NumKeypers")), func(i *Expr) bool {
				return f.Ne(Is(i), own("Keyper")) && own("Eon")(strip(x.Fields["Eon"])) && own("Keyper")(strip(x.Fields["Sender"])) &&
					Is(i)(strip(x.Fields["Receiver"])) && evalFor(i)(x.Fields["Eval"])
			})
		})
		c.must(why == "", "dealing", "list returned by "+fnName(deal), why)
	}
	// accusing
	if fn := c.method(e, dkgPkg+"PureDKG", "StartPhase2Accusing"); fn != nil {
		for i, o := range e.Summary(fn).Outs {
			cm := func(i *Expr) M { return Idx(own("Commitments"), Strip(Is(i))) }
			ev := func(i *Expr) M { return Idx(own("Evals"), Strip(Is(i))) }
			verify := func(i *Expr) M {
				return Call("shcrypto.VerifyPolyEval", Strip(own("Keyper")), ev(i), cm(i), Strip(own("Threshold")))
			}
			c.must(whole(o.Facts), "accusing", "return "+itoa(i)+" of "+fnName(fn), "not all dealers are checked")
			_, _, why := comprehension(e, o.Results[0], func(f *Facts) bool {
				return exists(below(f, own("NumKeypers")), func(i *Expr) bool {
					return f.Eq(Is(i), own("Keyper")) || f.True(verify(i)) && f.NonNil(ev(i)) && f.NonNil(cm(i))
				})
			}, func(f *Facts, x *Expr) bool {
				return x.Op == "struct" && exists(below(f, own("NumKeypers")), func(i *Expr) bool {
					return f.Ne(Is(i), own("Keyper")) && (f.IsNil(ev(i)) || f.IsNil(cm(i)) || f.False(verify(i))) &&
						own("Eon")(strip(x.Fields["Eon"])) && own("Keyper")(strip(x.Fields["Accuser"])) && Is(i)(strip(x.Fields["Accused"]))
				})
			})
			c.must(why == "", "accusing", "accusations returned "+itoa(i)+" by "+fnName(fn), why)
		}
	}
	// apologizing
	if fn := c.method(e, dkgPkg+"PureDKG", "StartPhase3Apologizing"); fn != nil {
		for i, o := range e.Summary(fn).Outs {
			accs := own("Accusations")
			key := func(f *Facts, p func(k *Expr) bool) bool {
				return exists(exprsIn(f, Has(accs, Any)), func(h *Expr) bool { return f.True(Is(h)) && p(h.Args[1]) })
			}
			c.must(o.Facts.All(accs, func(*Facts) bool { return true }), "apologizing", "return "+itoa(i)+" of "+fnName(fn), "not all accusations are answered")
			_, _, why := comprehension(e, o.Results[0], func(f *Facts) bool {
				return key(f, func(k *Expr) bool { return f.Ne(Fld(Is(k), "Accused"), own("Keyper")) })
			}, func(f *Facts, x *Expr) bool {
				return x.Op == "struct" && key(f, func(k *Expr) bool {
					is := func(v *Expr, n string) bool { return f.matchUpTo(strip(v), Fld(Is(k), n)) }
					return f.Eq(Fld(Is(k), "Accused"), own("Keyper")) && own("Eon")(strip(x.Fields["Eon"])) && is(x.Fields["Accuser"], "Accuser") &&
						(is(x.Fields["Accused"], "Accused") || own("Keyper")(strip(x.Fields["Accused"]))) && evalFor(&Expr{Op: "field", S: "Accuser", Args: []*Expr{k}})(x.Fields["Eval"])
				})
			})
			c.must(why == "", "apologizing", "apologies returned "+itoa(i)+" by "+fnName(fn), why)
		}
	}
}

func selfField(n string) *Expr {
	return &Expr{Op: "field", S: n, Args: []*Expr{{Op: "param", S: "$0"}}}
}

func itoa(i int) string { return strconv.Itoa(i) }

func init() {
	register(&Check{ID: "C38", Mods: []string{"shlib"},
		Rule: "A dealer is judged corrupt exactly if its commitment is missing, an apology of it does not match its commitment at the accuser's position, or an accusation against it has no apology; what is read for this judgement is only what every keyper sees. The evaluation used is the one from the dealer's apology to the keyper if there is one, else the one received. A result is computed only after the last phase and from at least threshold many dealers: for each dealer that is not corrupt its commitment and an evaluation that matches it (otherwise there is an error), for each corrupt one zero; all keypers' public key shares are computed from these commitments, in order.",
		Min:  map[string]int{"corrupt": 3, "visible": 1, "evaluation": 2, "lists": 2, "participants": 1, "result": 1},
		Run:  checkC38})
}

// visits: a loop over the whole container in the function or one that it calls, each step of which that goes on to the
// next element satisfies pred, in terms of the function's own parameters.
func (c *Ctx) visits(e *Engine, root *ssa.Function, container M, pred func(f *Facts, k *Expr) bool) bool {
	type ctx struct {
		fn *ssa.Function
		sb *subst
	}
	cs := []ctx{{root, nil}}
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "call" || s.Callee == nil || !e.P.InRepo(s.Callee) || e.Opaque[s.Callee] {
			return
		}
		for _, a := range s.Alts {
			cs = append(cs, ctx{s.Callee, &subst{m: argMap(a.Args, nil), ctx: "@visit"}})
		}
	})
	for _, x := range cs {
		for _, l := range e.Summary(x.fn).Loops {
			n, good := 0, true
			for _, ed := range l.Edges {
				if !ed.Back {
					continue
				}
				n++
				f := ed.Facts
				if x.sb != nil {
					if f = f.subst(x.sb); f == nil {
						continue
					}
				}
				good = good && e.Implies(f, func(f *Facts) bool {
					return exists(exprsIn(f, Has(container, Any)), func(h *Expr) bool { return f.True(Is(h)) && pred(f, h.Args[1]) })
				})
			}
			if n > 0 && good {
				return true
			}
		}
	}
	return false
}

func allOf(m M) func(f *Facts) bool {
	return func(f *Facts) bool { return f.All(m, func(*Facts) bool { return true }) }
}

func checkC38(c *Ctx) {
	e := NewEngine(c.shl().P)
	cryptoOpaque(e, algebra...)
	ph := dkgPhases(c, e)
	own := func(n string) M { return Fld(Param(0), n) }
	dealer := Param(1)
	corrupt := c.method(e, dkgPkg+"PureDKG", "isCorrupt")
	eval := c.method(e, dkgPkg+"PureDKG", "polyEval")
	if corrupt == nil || eval == nil {
		return
	}
	inDKG := func(f *ssa.Function) []*ssa.Function {
		return reachable(e, f, func(g *ssa.Function) bool { return !inPkg(g, "shlib/puredkg") })
	}
	// corrupt dealers
	cm := Idx(own("Commitments"), Strip(dealer))
	verify := func(k *Expr) M {
		return Call("shcrypto.VerifyPolyEval", Strip(Fld(Is(k), "Accuser")), Idx(own("Apologies"), Is(k)), cm, Strip(own("Threshold")))
	}
	of := func(f *Facts, k *Expr) bool { return f.Eq(Fld(Is(k), "Accused"), dealer) }
	notOf := func(f *Facts, k *Expr) bool { return f.Ne(Fld(Is(k), "Accused"), dealer) }
	each := func(f *Facts, m M, p func(k *Expr) bool) bool {
		return exists(exprsIn(f, Has(m, Any)), func(h *Expr) bool { return f.True(Is(h)) && p(h.Args[1]) })
	}
	fns := inDKG(corrupt)
	for _, f := range fns {
		c.fns[f] = true
	}
	goodApologies := c.visits(e, corrupt, own("Apologies"), func(f *Facts, k *Expr) bool { return notOf(f, k) || of(f, k) && f.True(verify(k)) })
	c.must(goodApologies, "corrupt", "apologies in "+fnName(corrupt), "a dealer whose apology is wrong may not be considered corrupt")
	answered := c.visits(e, corrupt, own("Accusations"), func(f *Facts, k *Expr) bool { return notOf(f, k) || f.True(Has(own("Apologies"), Is(k))) })
	c.must(answered, "corrupt", "accusations in "+fnName(corrupt), "a dealer that has not answered an accusation may not be considered corrupt")
	for i, o := range e.Summary(corrupt).Outs {
		c.must(yesNo(e, o.Facts, o.Results[0], func(f *Facts) bool {
			return f.IsNil(cm) || each(f, own("Apologies"), func(k *Expr) bool { return of(f, k) && f.False(verify(k)) }) ||
				each(f, own("Accusations"), func(k *Expr) bool { return of(f, k) && f.NotHas(own("Apologies"), Is(k)) })
		}, func(f *Facts) bool {
			return f.NonNil(cm) && allOf(own("Apologies"))(f) && allOf(own("Accusations"))(f)
		}), "corrupt", "return "+itoa(i)+" of "+fnName(corrupt), "a dealer is judged corrupt without a reason, or honest before everything was considered; known:\n        "+shortFacts(o.Facts, false))
	}
	visible := map[string]bool{"Commitments": true, "Apologies": true, "Accusations": true, "Threshold": true, "NumKeypers": true, "Eon": true}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				idx := -1
				switch x := in.(type) {
				case *ssa.FieldAddr:
					t, idx = x.X.Type(), x.Field
				case *ssa.Field:
					t, idx = x.X.Type(), x.Field
				}
				if idx >= 0 && typeBase(derefType(t)) == "puredkg.PureDKG" {
					n := structType(t).Field(idx).Name()
					c.must(visible[n], "visible", n+" at "+e.P.pos(in), "whether a dealer is corrupt depends on "+n+", which differs between the keypers")
				}
			}
		}
	}
	// the evaluation
	key := func(f *Facts, k *Expr) bool {
		return f.Eq(Fld(Is(k), "Accused"), dealer) && f.Eq(Fld(Is(k), "Accuser"), own("Keyper")) ||
			k.Op == "struct" && len(k.Fields) == 2 && dealer(strip(k.Fields["Accused"])) && own("Keyper")(strip(k.Fields["Accuser"]))
	}
	none := c.visits(e, eval, own("Apologies"), func(f *Facts, k *Expr) bool { return notOf(f, k) || f.Ne(Fld(Is(k), "Accuser"), own("Keyper")) })
	for i, o := range e.Summary(eval).Outs {
		x := o.Results[0]
		c.must(e.Implies(o.Facts, func(f *Facts) bool {
			if f.matchUpTo(x, Idx(own("Evals"), Strip(dealer))) {
				return none && allOf(own("Apologies"))(f) || exists(exprsIn(f, Has(own("Apologies"), Any)), func(h *Expr) bool { return f.False(Is(h)) && key(f, h.Args[1]) })
			}
			return exists(f.eqs(x), func(x *Expr) bool {
				return Idx(own("Apologies"), Any)(x) && key(f, x.Args[1]) && (f.True(Has(own("Apologies"), Is(x.Args[1]))) || f.NonNil(Is(x)))
			})
		}), "evaluation", "return "+itoa(i)+" of "+fnName(eval), "the evaluation is not the one of the dealer's apology to the keyper, or not the one received although there is no such apology")
	}
	// the result
	res := c.method(e, dkgPkg+"PureDKG", "ComputeResult")
	if res == nil {
		return
	}
	e = NewEngine(c.shl().P)
	cryptoOpaque(e, algebra...)
	e.Opaque[corrupt], e.Opaque[eval] = true, true
	isCorrupt := func(i *Expr) M { return Call("PureDKG).isCorrupt", Param(0), Strip(Is(i))) }
	at := func(f *Facts, p func(i *Expr) bool) bool { return exists(below(f, own("NumKeypers")), p) }
	evalOf := func(i *Expr) M { return Call("PureDKG).polyEval", Param(0), Strip(Is(i))) }
	cmOf := func(i *Expr) M { return Idx(own("Commitments"), Strip(Is(i))) }
	matches := func(f *Facts, i *Expr) bool {
		return f.True(Call("shcrypto.VerifyPolyEval", Strip(own("Keyper")), f.upTo(evalOf(i)), f.upTo(cmOf(i)), Strip(own("Threshold")))) && f.NonNil(evalOf(i))
	}
	degree := func(x *Expr) bool {
		return polyEq(polyOf(strip(x)), polyOf(selfField("Threshold")).add(polyConst(1), -1))
	}
	never := func(*Facts) bool { return false }
	lists := func(f *Facts, commitments, evals *Expr) string {
		_, _, why := comprehension(e, commitments, never, func(f *Facts, x *Expr) bool {
			return at(f, func(i *Expr) bool {
				return f.False(isCorrupt(i)) && f.matchUpTo(x, cmOf(i)) || f.True(isCorrupt(i)) && Call("shcrypto.ZeroGammas", degree)(x)
			})
		})
		if why != "" {
			return "commitments: " + why
		}
		if evals == nil {
			return ""
		}
		_, _, why = comprehension(e, evals, never, func(f *Facts, x *Expr) bool {
			return at(f, func(i *Expr) bool {
				return f.False(isCorrupt(i)) && f.matchUpTo(x, evalOf(i)) && matches(f, i) || f.True(isCorrupt(i)) && (Call("big.NewInt", Num(0))(x) || isNewInt(x))
			})
		})
		if why != "" {
			return "evaluations: " + why
		}
		return ""
	}
	for i, o := range e.Summary(res).Outs {
		if len(o.Results) != 2 {
			continue
		}
		name := "return " + itoa(i) + " of " + fnName(res)
		if !Nil(o.Results[1]) {
			c.must(o.Facts.NonNil(Is(o.Results[1])) || nonNilExpr(o.Results[1]), "result", name, "no result and no error")
			continue
		}
		f, r := o.Facts, o.Results[0]
		if !c.must(r.Op == "struct", "result", name, "the result is not put together here: "+short(r)) {
			continue
		}
		c.must(f.Le(K(ph["Finalized"]), own("Phase")) || f.Eq(K(ph["Finalized"]), own("Phase")), "result", name+", phase", "a result is computed before the last phase is over")
		for _, n := range []string{"Eon", "NumKeypers", "Threshold", "Keyper"} {
			c.must(own(n)(strip(r.Fields[n])), "result", name+", "+n, "the result's "+n+" is not the one of the key generation")
		}
		arg := func(x *Expr, fn string, n int) *Expr {
			if x == nil || !Call(fn)(x) || len(x.Args) <= n {
				return nil
			}
			return x.Args[n]
		}
		evals := arg(r.Fields["SecretKeyShare"], "shcrypto.ComputeEonSecretKeyShare", 0)
		commitments := arg(r.Fields["PublicKey"], "shcrypto.ComputeEonPublicKey", 0)
		if c.must(evals != nil && commitments != nil, "lists", name, "the keys are not computed from lists") {
			why := lists(f, commitments, evals)
			c.must(why == "" && allOf(own("NumKeypers"))(f), "lists", name+", dealers", why)
			_, _, why = comprehension(e, r.Fields["PublicKeyShares"], never, func(f *Facts, x *Expr) bool {
				return at(f, func(i *Expr) bool {
					return Call("shcrypto.ComputeEonPublicKeyShare", Strip(Is(i)), func(y *Expr) bool { return lists(f, y, nil) == "" })(x)
				})
			})
			c.must(why == "", "lists", name+", public key shares", why)
		}
		// participants
		ok := false
		for _, fc := range f.m {
			if fc.Op != "le" && fc.Op != "lt" || !own("Threshold")(strip(fc.A[0])) {
				continue
			}
			n := strip(fc.A[1])
			V := localVar(n)
			if V == nil {
				continue
			}
			for _, fn := range inDKG(res) {
				for _, l := range e.Summary(fn).Loops {
					ok = ok || inductive(l, V, func(f *Facts, v *Expr) bool { return isZero(strip(v)) }, func(f *Facts, v *Expr) bool {
						if v.Key() == V.Key() {
							return true // counting fewer is no danger here
						}
						return polyEq(polyOf(strip(v)), polyOf(V).add(polyConst(1), 1)) && e.Implies(f, func(f *Facts) bool {
							return at(f, func(i *Expr) bool { return f.False(isCorrupt(i)) })
						})
					})
				}
			}
		}
		c.must(ok, "participants", name, "the result may be computed although fewer than threshold many dealers are not corrupt")
	}
}

// isNewInt: a new number, which is zero.
func isNewInt(x *Expr) bool {
	if x == nil || x.Op != "alloc" || typeBase(derefType(x.T)) != "big.Int" && !strings.HasSuffix(typeBase(x.T), "big.Int") || len(x.Fields) == 0 {
		return false
	}
	for _, v := range x.Fields {
		if !zeroValue(v) && !K("false")(v) {
			return false
		}
	}
	return true
}
