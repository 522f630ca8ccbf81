package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26", Mods: []string{"shuttermint"},
		Rule: "In the function that synchronises the main chain state, every call of a contract gets options for block S, every filter starts at the old block + 1 and ends at S, where S is the latest block minus the follow distance (0 if it is smaller) and at least the old block, and is what the returned state records; on every successful return all contracts have been queried without an error; every iterator is read to its end, its error is checked, and each event has its effect with the right key and fields in every iteration; configs are read from the number known to the number existing, receipts for all new half steps that are even and executed.",
		Min:  map[string]int{"block range": 7, "target": 2, "queried": 6, "iterator": 4, "event effect": 10, "every event": 4, "configs": 2, "receipts": 3},
		Run:  checkC26})
}

const contractPkg = "shuttermint/contract"

// avoids: there is a way from the entry of the function to a normal return, or round a loop that contains
// all the blocks, that passes none of the blocks.
func avoids(fn *ssa.Function, hit map[*ssa.BasicBlock]bool) bool {
	var some *ssa.BasicBlock
	for b := range hit {
		some = b
	}
	if some == nil {
		return true
	}
	if h := innermostLoop(some); h != nil {
		l := loopOf(h)
		for b := range hit {
			if !l[b] {
				return true
			}
		}
		return loopAvoids(h, l, hit)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if hit[b] || seen[b] {
			return false
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failedReturn(r) {
			return true
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(fn.Blocks[0])
}

// returnedVal returns the last value returned, looking through the variables that hold the results of
// functions with deferred calls.
func returnedVal(r *ssa.Return) ssa.Value {
	if len(r.Results) == 0 {
		return nil
	}
	v := r.Results[len(r.Results)-1]
	if u, ok := v.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			ins := r.Block().Instrs
			for i := len(ins) - 1; i >= 0; i-- {
				if st, ok := ins[i].(*ssa.Store); ok && st.Addr == al {
					return st.Val
				}
			}
		}
	}
	return v
}

// failedReturn: the function returns an error that is not nil.
func failedReturn(r *ssa.Return) bool {
	v := returnedVal(r)
	return v != nil && isErrorType(v.Type()) && nonNilErr(v, r.Block(), map[ssa.Value]bool{})
}

// nonNilErr: the error cannot be nil in the block.
func nonNilErr(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Err" && strings.HasSuffix(x.Call.Value.Type().String(), "context.Context") {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.RelString(nil) {
			case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
				return true
			case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage":
				return nonNilErr(x.Call.Args[0], b, seen)
			}
		}
	case *ssa.Phi:
		all := true
		for i, y := range x.Edges {
			all = all && nonNilErr(y, x.Block().Preds[i], seen)
		}
		if all {
			return true
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g != nil
		}
	}
	// known from a test on the way
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		if w, eq, ok := tsNilTest(i.Cond); ok && w == v && eq != (d == p.Succs[0]) {
			return true
		}
		// compared with a certain error
		if bo, ok := i.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && d == p.Succs[0] {
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				w := bo.X
				if o == bo.X {
					w = bo.Y
				}
				if u, ok := o.(*ssa.UnOp); ok && w == v {
					if _, ok := u.X.(*ssa.Global); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// always: the instruction and the calls that lead to it (from frame i on) are executed in every
// iteration of the loop around them, or whenever the function succeeds.
func always(s *CSite, from int) bool {
	p := append(append([]*Site{}, s.Path...), s.Site)
	for _, x := range p[from:] {
		if avoids(x.Fn, map[*ssa.BasicBlock]bool{x.In.Block(): true}) {
			return false
		}
	}
	return true
}

// optsArg returns the argument of a call for the parameter that is a pointer to options of the given kind.
func optsArg(callee *ssa.Function, args []*Expr, name string) *Expr {
	ps := callee.Signature.Params()
	off := len(args) - ps.Len()
	for i := 0; i < ps.Len(); i++ {
		if typeBase(ps.At(i).Type()) == "bind."+name && i+off >= 0 {
			return args[i+off]
		}
	}
	return nil
}

// listOf matches lists of pointers to values of the named type.
func listOf(t string) M {
	return func(x *Expr) bool {
		if x == nil || x.Op == "slice" || x.T == nil {
			return false
		}
		s, ok := x.T.Underlying().(*types.Slice)
		return ok && typeBase(s.Elem()) == t
	}
}

// typedElem matches an event of the type: what an iterator holds, or an element of a list of such events.
func typedElem(kind string) M {
	return func(x *Expr) bool {
		if x == nil {
			return false
		}
		if x.Op == "field" && x.S == "Event" {
			return x.T == nil || typeBase(x.T) == "contract."+kind
		}
		return x.Op == "index" && x.Args[0].Op != "slice" && (listOf("contract."+kind)(x.Args[0]) || x.T != nil && typeBase(x.T) == "contract."+kind)
	}
}

func checkC26(c *Ctx) {
	e := c.shm()
	root := c.method(e, obsPkg+"MainChain", "SyncToHead")
	if root == nil {
		return
	}
	own := func(f *ssa.Function, p []*Site) bool {
		return !inPkg(f, contractPkg) && !inPkg(f, "shuttermint/medley")
	}
	self := &Expr{Op: "param", S: "$0"}
	old := polyOf(path(self, "CurrentBlock"))
	dist := polyOf(path(self, "FollowDistance"))
	head := Call("HeaderByNumber", Any, Any, Nil)
	// the block to which to synchronise
	isTarget := func(f *Facts, x *Expr) bool {
		if x == nil {
			return false
		}
		x = strip(x)
		for _, y := range append(exprsIn(f, Call("Uint64", Fld(Ext(head, 0), "Number"))), subExprs(x, Call("Uint64", Fld(Ext(head, 0), "Number")))...) {
			t := polyOf(y).add(dist, -1)
			p := polyOf(x)
			if (polyEq(p, t) || f.PolyLe(p, t) && f.PolyLe(t, p)) && f.PolyLe(dist, polyOf(y)) {
				return true
			}
			if (Num(0)(x) || f.Eq(Is(x), Num(0))) && f.PolyLe(polyOf(y), dist) {
				return true
			}
		}
		return false
	}
	recorded := map[string]bool{}
	rec := func(a *CAlt) *Expr {
		r := a.Args[0]
		if m := structFields(r); m != nil && m["CurrentBlock"] != nil {
			return m["CurrentBlock"]
		}
		return path(r, "CurrentBlock")
	}
	isOld := func(a *CAlt) bool { return a.Args[0].Key() == "$0" }
	need := []string{"NumConfigs", "FilterTransactionAdded", "NumExecutionHalfSteps", "FilterDepositChanged", "FilterAccused", "FilterAppealed"}
	c.returns(e, root, "target", func(a *CAlt) bool {
		if isPanic(a.Args[0]) || !Nil(a.Args[len(a.Args)-1]) || isOld(a) {
			return true
		}
		s := rec(a)
		recorded[s.Key()] = true
		return isTarget(a.Facts, s)
	}, "the block recorded as synchronised is not the latest one minus the follow distance")
	c.returns(e, root, "monotone", func(a *CAlt) bool {
		if isPanic(a.Args[0]) || !Nil(a.Args[len(a.Args)-1]) || isOld(a) {
			return true
		}
		return a.Facts.PolyLe(old, polyOf(rec(a)))
	}, "the state can move back to an earlier block, and events be applied twice")
	latest := Call("Uint64", Fld(Ext(head, 0), "Number"))
	c.returns(e, root, "target", func(a *CAlt) bool {
		if isPanic(a.Args[0]) || !Nil(a.Args[len(a.Args)-1]) || !isOld(a) {
			return true
		}
		return exists(exprsIn(a.Facts, latest), func(y *Expr) bool { return a.Facts.PolyLe(polyOf(y), old.add(dist, 1)) }) ||
			exists(exprsIn(a.Facts, latest), func(y *Expr) bool { return a.Facts.PolyLe(polyOf(y), old) })
	}, "the state is left as it is although there are blocks to synchronise")
	same := func(f *Facts, x *Expr) bool {
		return isTarget(f, x) || x != nil && strip(x).Op != "const" && recorded[strip(x).Key()]
	}
	steps := map[string][]*CSite{}
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind != "call" || s.Callee == nil || !inPkg(s.Callee, contractPkg) || inPkg(s.Fn, contractPkg) {
			return
		}
		for _, n := range need {
			if s.Callee.Name() == n {
				steps[n] = append(steps[n], s)
			}
		}
		if optsArg(s.Callee, s.Alts[0].Args, "CallOpts") != nil {
			c.each(s, "block range", func(a *CAlt) bool {
				m := structFields(optsArg(s.Callee, a.Args, "CallOpts"))
				if m == nil || m["BlockNumber"] == nil || !K("false")(m["Pending"]) && !zeroValue(m["Pending"]) {
					return false
				}
				b := m["BlockNumber"]
				if !Call("SetUint64")(b) && !Call("SetInt64")(b) && !Call("NewInt")(b) {
					return false
				}
				return same(a.Facts, b.Args[len(b.Args)-1])
			}, "the contract is queried for another block than the one recorded as synchronised")
		}
		if optsArg(s.Callee, s.Alts[0].Args, "FilterOpts") != nil {
			c.each(s, "block range", func(a *CAlt) bool {
				m := structFields(optsArg(s.Callee, a.Args, "FilterOpts"))
				return m != nil && m["Start"] != nil && m["End"] != nil && polyEq(polyOf(m["Start"]), old.add(polyConst(1), 1)) && same(a.Facts, m["End"])
			}, "the events queried are not those after the last synchronised block up to the one recorded")
		}
	})
	for _, n := range need {
		if !c.must(len(steps[n]) > 0, "queried", n, "the contract is not queried") {
			continue
		}
		ok := false
		for _, s := range steps[n] {
			good := true
			p := append(append([]*Site{}, s.Path...), s.Site)
			for i, x := range p {
				name := x.Name
				chk := func(results []*Expr, f *Facts) {
					if i == 0 && len(results) > 0 && results[0].Key() == "$0" {
						return
					}
					if len(results) > 0 {
						if last := results[len(results)-1]; isErrType(last) && !Nil(last) {
							return
						}
					}
					ds := f.dids(func(d *Expr) bool { return d.Op == "call" && d.S == name })
					good = good && exists(ds, func(d *Expr) bool {
						sig := x.Callee.Signature.Results()
						if sig.Len() == 0 {
							return true
						}
						if sig.Len() == 1 {
							return f.IsNil(Is(d))
						}
						return f.IsNil(Ext(Is(d), sig.Len()-1))
					})
				}
				for _, o := range e.Summary(x.Fn).Outs {
					chk(o.Results, o.Facts)
				}
			}
			ok = ok || good
		}
		c.must(ok, "queried", n, "there are successful returns without this query, or after it failed")
	}
	// iterators
	fns := map[*ssa.Function]bool{}
	c.walk(e, root, own, func(s *CSite) {
		if inPkg(s.Fn, contractPkg) {
			return
		}
		if s.Kind == "call" && s.Callee != nil && s.Callee.Name() == "Next" && inPkg(s.Callee, contractPkg) {
			fns[s.Fn] = true
			where := s.where(e.P)
			errName := strings.TrimSuffix(s.Name, "Next") + "Error"
			c.ends(e, s.Fn, s.Fn.Blocks[0], func(w string, f *Facts) {
				c.must(f.False(func(x *Expr) bool { return x.Op == "call" && x.S == s.Name }) || f.False(Fld(Any, "done")), "iterator", "end of "+where, "not all events are read: "+w)
				ds := f.dids(func(x *Expr) bool { return x.Op == "call" && x.S == errName })
				c.must(len(ds) > 0 && (f.IsNil(Fld(Any, "fail")) || exists(ds, func(d *Expr) bool { return f.IsNil(Is(d)) })), "iterator", "error of "+where, "errors of the iteration are ignored: "+w)
			})
		}
	})
	c.events26(e, root, own)
	c.configs26(e, root, own)
}

// subExprs returns the parts of an expression that match.
func subExprs(x *Expr, m M) []*Expr {
	var r []*Expr
	contains(x, func(y *Expr) bool {
		if m(y) {
			r = append(r, y)
		}
		return false
	})
	return r
}

// events26: the effects of main chain events.
func (c *Ctx) events26(e *Engine, root *ssa.Function, own func(f *ssa.Function, p []*Site) bool) {
	dep, acc, app, txa := typedElem("DepositContractDepositChanged"), typedElem("KeyperSlasherAccused"), typedElem("KeyperSlasherAppealed"), typedElem("BatcherContractTransactionAdded")
	depFields := []string{"Amount", "WithdrawalDelayBlocks", "WithdrawalRequestedBlock", "Slashed"}
	covered := map[string]bool{}
	sites := map[string][]*CSite{}
	// a list of the events of an iterator contains all of them
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind != "call" || s.Name != "append" || inPkg(s.Fn, contractPkg) || len(s.Site.Args) != 2 || s.Site.Args[1].Op != "list" {
			return
		}
		if len(s.Site.Args[1].Args) == 1 && Fld(Any, "Event")(s.Site.Args[1].Args[0]) {
			l := s.Site.Args[0]
			ok := false
			for _, lp := range e.Summary(s.Fn).Loops {
				if lp.Body[s.In.Block()] {
					ok = ok || inductive(lp, l, func(f *Facts, v *Expr) bool {
						return v.Op == "list" && len(v.Args) == 0 || v.Op == "nil" || v.Op == "make" || zeroValue(v)
					}, func(f *Facts, v *Expr) bool {
						return isAppend(v) && v.Args[0].Key() == l.Key() && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && Fld(Any, "Event")(v.Args[1].Args[0])
					})
				}
			}
			c.must(ok, "every event", "list of "+typeBase(valTypeOf(s.In))+" in "+fnName(s.Fn), "some events that were read are left out")
		}
	})
	c.walk(e, root, own, func(s *CSite) {
		if !inPkg(s.Fn, "shuttermint/keyper/observe") {
			return
		}
		o, n := wField(s)
		// the loop over a list of events goes through all of it
		loopAll := func(ev M) {
			p := append(append([]*Site{}, s.Path...), s.Site)
			for i := len(p) - 1; i >= 0; i-- {
				h := innermostLoop(p[i].In.Block())
				if h == nil {
					continue
				}
				fn := p[i].Fn
				c.must(always(s, i), "every event", fnName(fn)+" "+o+"."+n+" "+e.P.pos(s.In), "the effect does not happen for every event")
				c.must(!descends(p[i].In), "every event", "order in "+fnName(fn)+" "+o+"."+n+" "+e.P.pos(s.In), "the events are applied in the reverse of the order in which they happened")
				// the events that the loop visits
				var in *Expr
				for _, a := range s.Alts {
					for _, y := range append(append([]*Expr{}, a.Args...), a.Target) {
						if y == nil {
							continue
						}
						if z := findExpr(y, ev); z != nil {
							in = z
						}
					}
				}
				if in == nil || in.Op != "index" {
					return
				}
				c.ends(e, fn, fn.Blocks[0], func(w string, f *Facts) {
					c.must(f.All(func(l *Expr) bool {
						return l.Op != "part" && l.Op != "slice" && l.T != nil && in.Args[0].T != nil && types.Identical(l.T, in.Args[0].T)
					}, func(*Facts) bool { return true }), "every event", "loop in "+fnName(fn)+" for "+o+"."+n, "not all events are visited")
				})
				return
			}
			c.must(false, "every event", "loop for "+s.where(e.P), "the effect is not part of a loop over events")
		}
		switch {
		case s.Kind == "mapupdate" && n == "Deposits":
			full := true
			c.each(s, "event effect", func(a *CAlt) bool {
				k, v := a.Args[0], a.Args[1]
				for _, x := range depFields {
					m := structFields(v)
					full = full && m != nil && m[x] != nil && Fld(dep, x)(m[x])
				}
				if !Fld(dep, "Account")(k) {
					return false
				}
				if m := structFields(v); m != nil {
					for _, x := range depFields {
						if m[x] != nil && !zeroValue(m[x]) && !K("false")(m[x]) && !Fld(dep, x)(m[x]) {
							return false
						}
					}
					return m["Account"] != nil && m["Account"].Key() == k.Key()
				}
				return a.Facts.matchUpTo(v, Or(Idx(Fld(Any, "Deposits"), Is(k)), Ext(Idx(Fld(Any, "Deposits"), Is(k)), 0)))
			}, "a deposit is filed under another account than its own")
			if full {
				for _, x := range depFields {
					covered[x] = true
				}
				loopAll(dep)
			}
		case s.Kind == "store" && strings.HasSuffix(o, "observe.Deposit") && n != "Account":
			c.each(s, "event effect", func(a *CAlt) bool {
				t := a.Target
				if t == nil || t.Op != "field" || !Fld(dep, n)(a.Args[0]) {
					return false
				}
				d := t.Args[0]
				acct := Fld(Is(a.Args[0].Args[0]), "Account")
				if m := structFields(d); m != nil {
					return m["Account"] != nil && acct(m["Account"])
				}
				return a.Facts.matchUpTo(d, Or(Idx(Fld(Any, "Deposits"), acct), Ext(Idx(Fld(Any, "Deposits"), acct), 0)))
			}, "the deposit does not get the value from the event about it")
			covered[n] = true
			loopAll(dep)
		case s.Kind == "mapupdate" && n == "Accusations":
			c.each(s, "event effect", func(a *CAlt) bool {
				m := structFields(a.Args[1])
				if m == nil || !Fld(acc, "HalfStep")(a.Args[0]) {
					return false
				}
				ev := Is(a.Args[0].Args[0])
				raw := Fld(Fld(ev, "Raw"), "BlockNumber")
				for _, x := range []string{"Executor", "Accuser", "HalfStep"} {
					if m[x] == nil || !Fld(ev, x)(m[x]) {
						return false
					}
				}
				return m["BlockNumber"] != nil && raw(m["BlockNumber"]) && (m["Appealed"] == nil || K("false")(m["Appealed"]) || zeroValue(m["Appealed"]))
			}, "the accusation does not have the content of the event")
			covered["accused"] = true
			loopAll(acc)
		case s.Kind == "store" && strings.HasSuffix(o, "observe.Accusation") && !(s.Alts[0].Target != nil && s.Alts[0].Target.Op == "field" && structFields(s.Alts[0].Target.Args[0]) != nil):
			c.each(s, "event effect", func(a *CAlt) bool {
				t := a.Target
				return n == "Appealed" && K("true")(a.Args[0]) && t.Op == "field" && a.Facts.matchUpTo(t.Args[0], Or(Idx(Fld(Any, "Accusations"), Fld(app, "HalfStep")), Ext(Idx(Fld(Any, "Accusations"), Fld(app, "HalfStep")), 0)))
			}, "something else than the appeal against the accusation is recorded")
			c.each(s, "event effect", func(a *CAlt) bool {
				return a.Facts.All(listOf("contract.KeyperSlasherAccused"), func(*Facts) bool { return true }) || a.Facts.False(Call("KeyperSlasherAccusedIterator).Next"))
			}, "appeals are applied before the accusations they are about")
			covered["appealed"] = true
			loopAll(app)
		case s.Kind == "mapupdate" && n == "Batches":
			c.each(s, "event effect", func(a *CAlt) bool {
				m := structFields(a.Args[1])
				return m != nil && Fld(txa, "BatchIndex")(a.Args[0]) && m["BatchIndex"] != nil && m["BatchIndex"].Key() == a.Args[0].Key() && a.Facts.NotHas(Fld(Any, "Batches"), Is(a.Args[0]))
			}, "a batch that is known is replaced, or a batch is filed under another index")
		case s.Kind == "call" && s.Name == "append":
			o, n, st := keptIn(s.In)
			typ := map[string]int{"EncryptedTransactions": 0, "PlainTransactions": 1}
			k, ok := typ[n]
			if st == nil || o != "observe.Batch" || !ok {
				return
			}
			c.each(s, "event effect", func(a *CAlt) bool {
				l := a.Args[1]
				if l.Op != "list" || len(l.Args) != 1 || !Fld(txa, "Transaction")(l.Args[0]) {
					return false
				}
				ev := Is(l.Args[0].Args[0])
				if !a.Facts.Eq(Fld(ev, "TransactionType"), Num(k)) {
					return false
				}
				key := Fld(ev, "BatchIndex")
				if a.Args[0].Op == "nil" {
					return a.Facts.Did(Call("mapupdate:Batches", Any, key)) || a.Facts.Did(Call("absent", Fld(Any, "Batches"), key)) || a.Facts.NotHas(Fld(Any, "Batches"), key)
				}
				return Fld(Or(Idx(Fld(Any, "Batches"), key), Ext(Idx(Fld(Any, "Batches"), key), 0)), n)(a.Args[0])
			}, "the transaction is not appended to the list of its kind in its batch")
			sites["tx"] = append(sites["tx"], s)
		}
	})
	for _, x := range append([]string{"accused", "appealed"}, depFields...) {
		c.must(covered[x], "event effect", x, "events have no effect on this part of the state")
	}
	// transactions
	c.hashes26(e, root, own, sites["tx"])
}

// hashes26: with every transaction the hash of its batch is recorded.
func (c *Ctx) hashes26(e *Engine, root *ssa.Function, own func(f *ssa.Function, p []*Site) bool, txs []*CSite) {
	kinds := map[string]string{"EncryptedTransactions": "EncryptedBatchHash", "PlainTransactions": "PlainBatchHash"}
	seen := map[string]bool{}
	blocks := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	for _, s := range txs {
		_, n, st := keptIn(s.In)
		seen[n] = true
		if blocks[s.Fn] == nil {
			blocks[s.Fn] = map[*ssa.BasicBlock]bool{}
		}
		blocks[s.Fn][s.In.Block()] = true
		// the store of the hash to the same batch, from the same event
		found := false
		addr := st.Addr.(*ssa.FieldAddr)
		for _, b := range s.Fn.Blocks {
			for _, in := range b.Instrs {
				h, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := h.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != kinds[n] || fa.X != addr.X || !mustPass(s.In, in) && !b.Dominates(s.In.Block()) {
					continue
				}
				from := fieldLoad(h.Val)
				found = found || from == "BatchHash"
			}
		}
		c.must(found, "event effect", kinds[n]+" in "+fnName(s.Fn), "the hash of the batch is not updated along with its transactions")
		// every event
		for i := range append(append([]*Site{}, s.Path...), s.Site) {
			if i < len(s.Path) && innermostLoop(s.Path[i].In.Block()) != nil {
				c.must(everyIteration(s.Path[i].In), "every event", "transactions in "+fnName(s.Path[i].Fn), "some transactions are left out")
				c.must(!descends(s.Path[i].In), "every event", "order of transactions in "+fnName(s.Path[i].Fn), "transactions are added to the batch in the reverse of the order in which they were added on the main chain")
			}
		}
	}
	c.must(seen["EncryptedTransactions"] && seen["PlainTransactions"], "event effect", "transactions", "a kind of transactions is not recorded")
	for fn, bs := range blocks {
		c.must(!avoids(fn, bs), "every event", "kinds of transactions in "+fnName(fn), "some transactions are not added to their batch")
	}
}

// fieldLoad returns the name of the field that a value is loaded from.
func fieldLoad(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field)
	case *ssa.ChangeType:
		return fieldLoad(x.X)
	}
	return ""
}

func valTypeOf(in ssa.Instruction) types.Type {
	if v, ok := in.(ssa.Value); ok {
		if s, ok := v.Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
		return v.Type()
	}
	return types.Typ[types.Invalid]
}

// configs26: configs and receipts are read for all indexes.
func (c *Ctx) configs26(e *Engine, root *ssa.Function, own func(f *ssa.Function, p []*Site) bool) {
	num := Ext(Call("NumConfigs"), 0)
	steps := Ext(Call("NumExecutionHalfSteps"), 0)
	nCfg, nRec, nSteps := 0, 0, 0
	lenOfCfgs := func(p poly) bool {
		for k, n := range p {
			_ = n
			if strings.HasPrefix(k, "len(") && strings.HasSuffix(k, ".BatchConfigs)") && len(p) == 1 {
				return true
			}
		}
		return false
	}
	isLen := func(x *Expr) bool { return lenOfCfgs(polyOf(x)) }
	c.walk(e, root, own, func(s *CSite) {
		if !inPkg(s.Fn, "shuttermint/keyper/observe") {
			return
		}
		o, n := wField(s)
		switch {
		case s.Kind == "call" && s.Name == "append":
			if o, n, st := keptIn(s.In); st == nil || o != "observe.MainChain" || n != "BatchConfigs" {
				return
			}
			nCfg++
			raw := rawSite(e, s)
			for _, a := range raw.Alts {
				l := a.Args[1]
				var call *Expr
				if l.Op == "list" && len(l.Args) == 1 {
					call = findExpr(l.Args[0], Or(Call("GetConfigByIndex"), Call("ConfigForConfigIndex")))
					if ds := a.Facts.dids(Call("GetConfigByIndex")); call == nil && len(ds) == 1 && l.Args[0].Op == "opaque" && strings.Contains(l.Args[0].S, "GetConfigByIndex.r0") {
						call = ds[0]
					}
				}
				if !c.must(call != nil, "configs", "element at "+s.where(e.P), "what is added is not a config from the contract") {
					continue
				}
				i := strip(call.Args[len(call.Args)-1])
				ok := isLen(i)
				for _, lp := range e.Summary(s.Fn).Loops {
					if lp.Body[s.In.Block()] {
						ok = ok || inductive(lp, i, func(f *Facts, v *Expr) bool { return isLen(strip(v)) }, func(f *Facts, v *Expr) bool {
							return polyEq(polyOf(v), polyOf(i).add(polyConst(1), 1))
						})
					}
				}
				c.must(ok && everyIteration(s.In), "configs", "index at "+s.where(e.P), "the configs added do not continue where the known ones end")
				c.ends(e, s.Fn, s.Fn.Blocks[0], func(w string, f *Facts) {
					c.must(f.Le(num, Strip(Is(i))) || f.Le(num, Strip(Len(Fld(Any, "BatchConfigs")))), "configs", "end in "+fnName(s.Fn), "not all configs are read")
				})
			}
		case s.Kind == "mapupdate" && n == "CipherExecutionReceipts":
			nRec++
			raw := rawSite(e, s)
			for _, a := range raw.Alts {
				v := a.Args[1]
				rec := findExpr(v, Ext(Call("GetReceipt"), 0))
				if rec == nil {
					rec = findExpr(a.Args[0], Ext(Call("GetReceipt"), 0))
				}
				if !c.must(rec != nil, "receipts", "value at "+s.where(e.P), "what is recorded is not a receipt from the contract") {
					continue
				}
				call := rec.Args[0]
				h := strip(call.Args[len(call.Args)-1])
				c.must(Fld(Is(rec), "HalfStep")(a.Args[0]) || strip(a.Args[0]).Key() == h.Key(), "receipts", "key at "+s.where(e.P), "the receipt is filed under another half step")
				c.must(a.Facts.True(Fld(Is(rec), "Executed")), "receipts", "executed at "+s.where(e.P), "receipts of half steps that were skipped are recorded")
				for _, lp := range e.Summary(s.Fn).Loops {
					if !lp.Body[s.In.Block()] {
						continue
					}
					c.must(inductive(lp, h, func(f *Facts, v *Expr) bool { return Fld(Any, "NumExecutionHalfSteps")(strip(v)) }, func(f *Facts, v *Expr) bool {
						return polyEq(polyOf(v), polyOf(h).add(polyConst(1), 1))
					}), "receipts", "half steps at "+s.where(e.P), "the half steps visited are not the new ones")
					odd := Bin("%", Strip(Is(h)), Num(2))
					bit := Bin("&", Strip(Is(h)), Num(1))
					for _, ed := range lp.Edges {
						if ed.Back {
							f := ed.Facts
							skip := f.Ne(odd, Num(0)) || f.Eq(odd, Num(1)) || f.Ne(bit, Num(0)) || f.Eq(bit, Num(1)) || f.False(Fld(Ext(Call("GetReceipt"), 0), "Executed"))
							c.must(skip || f.Did(Call("mapupdate:CipherExecutionReceipts")), "receipts", "complete in "+fnName(s.Fn), "receipts of executed cipher half steps are left out")
						}
					}
					c.ends(e, s.Fn, s.Fn.Blocks[0], func(w string, f *Facts) {
						c.must(f.Le(steps, Strip(Is(h))), "receipts", "end in "+fnName(s.Fn), "not all half steps are visited")
					})
				}
			}
		case s.Kind == "store" && n == "NumExecutionHalfSteps" && strings.HasSuffix(o, "observe.MainChain"):
			nSteps++
			c.each(s, "receipts", func(a *CAlt) bool { return steps(a.Args[0]) }, "the number of half steps is not the one from the contract")
			c.must(always(s, len(s.Path)), "receipts", "number in "+fnName(s.Fn), "the number of half steps is not always updated")
		}
	})
	c.must(nCfg > 0, "configs", "all", "configs are not read")
	c.must(nRec > 0 && nSteps > 0, "receipts", "all", "receipts are not read")
}

// rawSite is the site in terms of the function it is in.
func rawSite(e *Engine, s *CSite) *Site {
	for _, x := range e.Summary(s.Fn).Sites {
		if x.In == s.In {
			return x
		}
	}
	return s.Site
}
