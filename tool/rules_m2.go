package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the transactions that the command line tools send to the main chain.

func init() {
	register(&Check{ID: "C43", Mods: []string{"shuttermint"},
		Rule: "Adding a transaction to a batch appends it and increases the nonce for the next one by one, from the pending nonce of the sender on. Every transaction created with the options of a batch, or sent by a function that has a batch, is added to it on every path to a successful return; every batch that is created is waited for, and the error of waiting is not dropped. Waiting goes on only while the receipt is not found; waiting for many transactions visits all of them, and succeeds only if, in every iteration, the transaction succeeded or a failure was counted and the count is zero in the end. Where a single transaction is waited for, the function succeeds only if its receipt says so.",
		Min:  map[string]int{"added": 2, "nonce": 2, "waits": 2, "all mined": 4, "failures": 2, "batched": 20, "waited for": 3, "status": 2},
		Run:  checkC43})
}

const batchType = "shuttermint/medley/txbatch.TXBatch"

func checkC43(c *Ctx) {
	e := c.shm()
	add := c.method(e, batchType, "Add")
	wait := c.method(e, batchType, "WaitMined")
	one := c.pkgFunc(e, "shuttermint/medley.WaitMined")
	many := c.pkgFunc(e, "shuttermint/medley.WaitMinedMany")
	if add == nil || wait == nil || one == nil || many == nil {
		return
	}
	// adding
	var appends, nonces []*CSite
	nonce := Fld(Fld(Param(0), "TransactOpts"), "Nonce")
	next := func(a *CAlt) bool {
		v := a.Args[len(a.Args)-1]
		for _, y := range subExprs(v, Or(Call("Int64", nonce), Call("Uint64", nonce))) {
			if polyEq(polyOf(v), polyOf(y).add(polyConst(1), 1)) {
				return true
			}
		}
		// n.Add(n, 1)
		return len(a.Args) == 3 && nonce(a.Args[1]) && Or(Call("NewInt", Num(1)), Fld(Any, "Big1"), func(x *Expr) bool { return strings.HasSuffix(x.S, "common.Big1") })(v)
	}
	c.walk(e, add, nil, func(s *CSite) {
		base := s.Name[strings.LastIndex(s.Name, ".")+1:]
		switch {
		case s.Kind == "call" && s.Name == "append":
			if _, n, st := keptIn(s.In); st != nil && n == "transactions" {
				appends = append(appends, s)
				c.each(s, "added", func(a *CAlt) bool {
					return Fld(Param(0), "transactions")(a.Args[0]) && a.Args[1].Op == "list" && len(a.Args[1].Args) == 1 && Param(1)(a.Args[1].Args[0])
				}, "what is appended to the transactions of the batch is not the transaction added")
			}
		case s.Kind == "call" && strings.HasPrefix(s.Name, "math/big") || s.Kind == "call" && strings.Contains(s.Name, "big.Int)"):
			if (base == "SetInt64" || base == "SetUint64" || base == "Add" || base == "Set" || base == "Sub") && len(s.Alts) > 0 && nonce(s.Alts[0].Args[0]) {
				nonces = append(nonces, s)
				c.each(s, "nonce", next, "the nonce of the next transaction is not one more than that of the one added")
			}
		case s.Kind == "store":
			if storesField(s.In, "bind.TransactOpts", "Nonce") {
				nonces = append(nonces, s)
				c.each(s, "nonce", func(a *CAlt) bool {
					v := a.Args[0]
					return v.Op == "call" && (strings.HasSuffix(v.S, "NewInt") || strings.HasSuffix(v.S, "SetInt64") || strings.HasSuffix(v.S, "SetUint64") || strings.HasSuffix(v.S, ").Add")) && next(&CAlt{Args: v.Args, Facts: a.Facts})
				}, "the nonce of the next transaction is not one more than that of the one added")
			}
		}
	})
	once := func(ss []*CSite) bool {
		if len(ss) != 1 {
			return false
		}
		for _, x := range append(append([]*Site{}, ss[0].Path...), ss[0].Site) {
			if avoids(x.Fn, map[*ssa.BasicBlock]bool{x.In.Block(): true}) || innermostLoop(x.In.Block()) != nil {
				return false
			}
		}
		return true
	}
	c.must(once(appends), "added", fnName(add), "the transaction is not always added to the batch, once")
	c.must(once(nonces), "nonce", fnName(add), "the nonce does not always increase by one")
	init := c.pkgFunc(e, "shuttermint/medley/txbatch.InitTransactOpts")
	if init != nil {
		pend := Call("PendingNonceAt")
		found := false
		c.walk(e, init, nil, func(s *CSite) {
			if s.Kind == "store" && storesField(s.In, "bind.TransactOpts", "Nonce") {
				found = true
				c.each(s, "nonce", func(a *CAlt) bool {
					ys := subExprs(a.Args[0], Ext(pend, 0))
					if len(ys) != 1 {
						return false
					}
					d := ys[0].Args[0]
					v := a.Args[0]
					if v.Op == "call" && len(v.Args) > 0 {
						v = strip(v.Args[len(v.Args)-1])
					}
					return polyEq(polyOf(v), polyOf(ys[0])) && a.Facts.IsNil(Ext(Is(d), 1)) && Call("PubkeyToAddress", Fld(Param(2), "PublicKey"))(d.Args[len(d.Args)-1])
				}, "the first nonce is not the pending nonce of the sender")
			}
		})
		c.must(found, "nonce", fnName(init), "the first nonce is not set")
	}
	// waiting for one transaction
	rec := Call("TransactionReceipt", Any, Any, Param(2))
	notFound := func(x *Expr) bool { return strings.HasSuffix(strings.TrimSuffix(x.Key(), ")"), "NotFound") }
	n := 0
	for _, o := range e.Summary(one).Outs {
		n++
		f := o.Facts
		if Nil(o.Results[1]) {
			r := o.Results[0]
			c.must(Ext(rec, 0)(r) && f.IsNil(Ext(Is(r.Args[0]), 1)), "waits", "receipt of "+fnName(one), "the receipt returned is not the one of the transaction")
			continue
		}
		err := o.Results[1]
		ok := exists(f.dids(rec), func(d *Expr) bool { return true }) || exists(exprsIn(f, Ext(rec, 1)), func(x *Expr) bool { return true })
		c.must(!ok || f.Ne(Ext(rec, 1), notFound) || f.False(Call("errors.Is", Ext(rec, 1), notFound)) || !contains(err, func(x *Expr) bool { return Ext(rec, 1)(x) }) || f.NonNil(Call("Context).Err")), "waits", "error of "+fnName(one), "waiting is given up although the transaction may still be mined")
	}
	c.must(n > 0, "waits", fnName(one), "waiting never ends")
	// waiting for many
	c.allMined(e, wait, Fld(Param(0), "transactions"))
	c.allMined(e, many, Param(2))
	// use
	for _, f := range e.P.Functions() {
		if isBinding(f) || f.Pkg == nil || f == add || f == wait {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				callee := call.Call.StaticCallee()
				if batchOpts(call) {
					c.must(addedToBatch(call), "batched", "transaction at "+e.P.pos(in), "the transaction is not added to the batch, so its nonce is used again and nobody waits for it")
				}
				if callee == nil {
					continue
				}
				switch name := callee.RelString(nil); {
				case strings.HasSuffix(name, "ethclient.Client).SendTransaction"):
					if usesBatch(f) {
						c.must(passesAdd(call, call.Call.Args[len(call.Call.Args)-1]), "batched", "transaction at "+e.P.pos(in), "the transaction is sent but not added to the batch, so its nonce is used again and nobody waits for it")
					}
				case strings.HasSuffix(name, "txbatch.New"):
					c.must(waitedFor(call), "waited for", "batch at "+e.P.pos(in), "the function may succeed without having waited for the transactions of the batch")
				case callee == wait || callee == many:
					c.must(errorUsed(call) && c.noticed(e, f), "waited for", "error at "+e.P.pos(in), "failures of transactions are ignored")
				case callee == add:
					c.must(addedOnce(call), "batched", "transaction added at "+e.P.pos(in), "the transaction is added twice, so a nonce is left out")
				case strings.HasPrefix(name, "github.com/ethereum/go-ethereum/core/types.NewTransaction") || strings.HasSuffix(name, "types.NewContractCreation"):
					if usesBatch(f) {
						c.must(batchNonce(call.Call.Args[0]), "nonce", "transaction at "+e.P.pos(in), "the nonce of the transaction is not that of the batch")
					}
				case callee == one && f != many && !strings.Contains(f.Pkg.Pkg.Path(), "shuttermint/keyper"):
					c.statusChecked(e, f, call)
				}
			}
		}
	}
}

// receiptOf matches the receipt of a transaction that was waited for, mined its status.
func receiptOf(x *Expr) bool {
	return Or(Ext(Call("medley.WaitMined"), 0), Ext(Call("TransactionReceipt"), 0))(x)
}

// succeeded: the status, which is 0 or 1, is 1.
func succeeded(f *Facts) bool { return f.Eq(mined, Num(1)) || f.Ne(mined, Num(0)) }

func mined(x *Expr) bool { return Fld(receiptOf, "Status")(x) }

// storesField: the instruction stores to the field of a struct of the type.
func storesField(in ssa.Instruction, typ, name string) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !strings.HasSuffix(typeBase(fa.X.Type()), typ) {
		return false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(fa.Field).Name() == name
}

// allMined: a function that waits for the transactions in a list succeeds only if all of them succeeded.
func (c *Ctx) allMined(e *Engine, fn *ssa.Function, list M) {
	sum := e.Summary(fn)
	good := succeeded
	fails := false
	var vars, phis []*Expr
	for _, o := range sum.Outs {
		for _, x := range exprsIn(o.Facts, func(x *Expr) bool { return x.Op == "phi" }) {
			phis = append(phis, localized(x))
		}
	}
	for _, l := range sum.Loops {
		all := len(l.Edges) > 0
		waits := false
		for _, ed := range l.Edges {
			if ed.Back {
				all = all && good(ed.Facts)
				waits = waits || exists(exprsIn(ed.Facts, mined), func(*Expr) bool { return true })
			}
		}
		if !waits {
			continue
		}
		fails = fails || all
		for _, v := range phis {
			if inductive(l, v, func(f *Facts, x *Expr) bool {
				return Num(0)(x) || Nil(x) || K("false")(x) || zeroValue(x) || x.Op == "list" && len(x.Args) == 0 || x.Op == "alloc" || x.Op == "make"
			}, func(f *Facts, x *Expr) bool {
				if x.Key() == v.Key() {
					return good(f)
				}
				if K("true")(x) || f.NonNil(Is(x)) || x.Op == "call" && isErrType(x) {
					return true
				}
				return polyEq(polyOf(x), polyOf(v).add(polyConst(1), 1)) || isAppend(x) && x.Args[0].Key() == v.Key()
			}) {
				vars = append(vars, v)
			}
		}
	}
	n := 0
	for _, o := range sum.Outs {
		if !Nil(o.Results[len(o.Results)-1]) {
			continue
		}
		n++
		f := o.Facts
		visited := f.All(list, func(g *Facts) bool { return g.IsNil(Ext(Call("medley.WaitMined"), 1)) }) || f.Eq(Len(list), Num(0))
		c.must(visited, "all mined", fnName(fn), "the function succeeds without having waited for all transactions")
		ok := fails || f.All(list, good) || f.Eq(Len(list), Num(0))
		for _, v := range vars {
			l := &Expr{Op: "len", Args: []*Expr{v}}
			is := func(x *Expr) M { return func(y *Expr) bool { return localized(y).Key() == x.Key() } }
			ok = ok || f.Eq(is(v), Num(0)) || f.Le(is(v), Num(0)) || f.Eq(is(l), Num(0)) || f.Le(is(l), Num(0)) || f.IsNil(is(v)) || f.False(is(v))
		}
		c.must(ok, "failures", fnName(fn), "the function succeeds although a transaction failed; known on such a path: "+shortFacts(f, false))
	}
	c.must(n > 0, "all mined", fnName(fn), "the function never succeeds")
	c.walk(e, fn, nil, func(s *CSite) {
		if s.Kind == "call" && strings.HasSuffix(s.Name, "medley.WaitMined") && s.Fn == fn {
			c.each(s, "all mined", func(a *CAlt) bool {
				h := a.Args[2]
				return Idx(list, Any)(h) || Call("Hash", Idx(list, Any))(h)
			}, "what is waited for is not a transaction of the list")
			c.must(everyIteration(s.In), "all mined", "every transaction in "+fnName(fn), "some transactions are left out")
		}
	})
}

// usesBatch: the function creates or is given a batch.
func usesBatch(f *ssa.Function) bool {
	for _, p := range f.Params {
		if strings.HasSuffix(typeBase(p.Type()), "txbatch.TXBatch") {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && strings.HasSuffix(typeBase(v.Type()), "txbatch.TXBatch") {
				return true
			}
		}
	}
	return false
}

// passesUnless: on every way from the call to a successful return, or back to the call, one of the instructions is passed.
func passesUnless(call *ssa.Call, hit func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var bad func(b *ssa.BasicBlock, from int) bool
	bad = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if hit(in) {
				return false
			}
			if in == call {
				return true
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return !failedReturn(r)
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if bad(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range call.Block().Instrs {
		if in == call {
			return !bad(call.Block(), i+1)
		}
	}
	return false
}

func passesAdd(call *ssa.Call, tx ssa.Value) bool {
	return passesUnless(call, func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return false
		}
		if name := c.Call.StaticCallee().RelString(nil); strings.Contains(name, "ethclient") {
			return false
		}
		takes, batch := false, false
		for _, a := range c.Call.Args {
			takes = takes || a == tx
			batch = batch || strings.HasSuffix(typeBase(a.Type()), "txbatch.TXBatch")
		}
		return takes && batch
	})
}

// waitedFor: the batch is waited for, or handed on, before the function succeeds.
func waitedFor(call *ssa.Call) bool {
	var batch ssa.Value
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
			batch = x
		}
	}
	if batch == nil {
		return false
	}
	same := map[ssa.Value]bool{batch: true}
	for changed := true; changed; {
		changed = false
		for v := range same {
			if v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if p, ok := r.(*ssa.Phi); ok && !same[p] {
					same[p], changed = true, true
				}
			}
		}
	}
	return passesUnless(call, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			for i, a := range x.Call.Args {
				if same[a] && (strings.HasSuffix(f.RelString(nil), "txbatch.TXBatch).WaitMined") || waitsForParam(f, i, map[*ssa.Function]bool{})) {
					return true
				}
			}
		case *ssa.Return:
			for _, v := range x.Results {
				if same[v] {
					return true
				}
			}
		case *ssa.Store:
			return same[x.Val]
		}
		return false
	})
}

// waitsForParam: the function waits for the batch given before it succeeds.
func waitsForParam(f *ssa.Function, i int, busy map[*ssa.Function]bool) bool {
	if f.Blocks == nil || busy[f] || i >= len(f.Params) {
		return false
	}
	busy[f] = true
	hit := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok || x.Call.StaticCallee() == nil {
				continue
			}
			for j, a := range x.Call.Args {
				if a == f.Params[i] && (strings.HasSuffix(x.Call.StaticCallee().RelString(nil), "txbatch.TXBatch).WaitMined") || waitsForParam(x.Call.StaticCallee(), j, busy)) {
					hit[b] = true
				}
			}
		}
	}
	return len(hit) > 0 && !avoids(f, hit)
}

// noticed: the function does not succeed after waiting has failed.
func (c *Ctx) noticed(e *Engine, f *ssa.Function) bool {
	for _, o := range e.Summary(f).Outs {
		if len(o.Results) == 0 || !Nil(o.Results[len(o.Results)-1]) {
			continue
		}
		for _, d := range o.Facts.dids(Or(Call("txbatch.TXBatch).WaitMined"), Call("medley.WaitMinedMany"))) {
			if !o.Facts.IsNil(Ext(Is(d), 1)) {
				return false
			}
		}
	}
	return true
}

// batchNonce: the value is the nonce in the options of a batch.
func batchNonce(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || len(call.Call.Args) != 1 || call.Call.StaticCallee() == nil || !strings.HasSuffix(call.Call.StaticCallee().RelString(nil), "big.Int).Uint64") {
		return false
	}
	ld, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, name := fieldChain(fa)
	return name == "Nonce" && strings.HasSuffix(typeBase(fa.X.Type()), "bind.TransactOpts")
}

// addedOnce: from adding a transaction there is no way to adding it again.
func addedOnce(call *ssa.Call) bool {
	tx := call.Call.Args[1]
	add := call.Call.StaticCallee()
	seen := map[*ssa.BasicBlock]bool{}
	var again func(b *ssa.BasicBlock, from int) bool
	again = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if v, ok := in.(ssa.Value); ok && v == tx {
				return false
			}
			if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() == add && x.Call.Args[1] == tx {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if again(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range call.Block().Instrs {
		if in == call {
			return !again(call.Block(), i+1)
		}
	}
	return false
}

// errorUsed: the error that the call returns is looked at.
func errorUsed(call *ssa.Call) bool {
	for _, r := range *call.Referrers() {
		switch x := r.(type) {
		case *ssa.Extract:
			if isErrorType(x.Type()) && x.Referrers() != nil {
				for _, u := range *x.Referrers() {
					if _, dbg := u.(*ssa.DebugRef); !dbg {
						return true
					}
				}
			}
		case *ssa.Return:
			return true
		}
	}
	return false
}

// statusChecked: the function succeeds only if the transaction it waited for did.
func (c *Ctx) statusChecked(e *Engine, f *ssa.Function, call *ssa.Call) {
	if strings.HasSuffix(fnName(f), "txbatch.TXBatch).WaitMined") {
		return
	}
	n := 0
	for _, o := range e.Summary(f).Outs {
		if len(o.Results) == 0 || !Nil(o.Results[len(o.Results)-1]) {
			continue
		}
		n++
		returned := false
		for _, r := range o.Results {
			returned = returned || receiptOf(r)
		}
		c.must(returned || succeeded(o.Facts), "status", fnName(f), "the function succeeds although the transaction failed")
	}
	c.must(n > 0, "status", fnName(f), "the function never succeeds")
}
