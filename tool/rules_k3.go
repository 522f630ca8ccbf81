package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about epoch keys, decryption signatures and the execution of batches.

func init() {
	register(&Check{ID: "C19", Mods: []string{"shuttermint"},
		Rule: "The path conditions of every scheduled epoch secret key share imply that the batch is older than the current batch of the config active at the observed main chain block, that its execution timeout is not over, that the keyper is a member of the batch's keyper set, that the share is computed for the identity of this batch with the secret share of the eon responsible for the batch, that the epoch's key is not known, and that no share was considered for this batch before (the batch counter, which is advanced on every path).",
		Min:  map[string]int{"closed batch": 1, "keyper": 1, "eon": 1, "not known": 1, "once": 2},
		Run:  checkC19})
	register(&Check{ID: "C20", Mods: []string{"shuttermint"},
		Rule: "The only writes to collected shares and epoch keys are in the epoch key generation. A share is collected only under path conditions implying that it verifies against the public key share of its sender and the identity of its epoch, that no collected share of this epoch is from the same sender and that the key is not known; a key is computed exactly when the number of collected shares equals the threshold, from the senders and shares of the same list entries. Shares enter with the position of the event's sender among the participants of the eon to which the event belongs; in the loops around this call every iteration makes the call or knows a reason why the share cannot be used.",
		Min:  map[string]int{"shares handled": 1, "verified": 2, "distinct": 3, "threshold": 3, "pairs": 2, "only writer": 2, "share contents": 1},
		Run:  checkC20})
	register(&Check{ID: "C21", Mods: []string{"shuttermint"},
		Rule: "The stored decryption result of a batch is computed from the observed encrypted transactions of this batch with the key of this epoch. The signed hash covers, in this order, the prefix, the batcher contract's address, the batch index, the hash of the encrypted transactions and the hash of the decrypted ones, each unconditionally; the hash of a list covers every element together with the hash of those before it, and nothing reorders or replaces the decrypted transactions. The keyper signs only this hash, for a batch that is not empty, has too few signatures and is not timed out. A signature counts only under path conditions implying that it was made over the batch's hash by the sender, who is a keyper of the config responsible for the batch and has no signature counted yet.",
		Min:  map[string]int{"decrypted batch": 1, "decryption": 1, "hash contents": 1, "signs": 1, "counted signature": 1, "signature position": 1},
		Run:  checkC21})
	register(&Check{ID: "C22", Mods: []string{"shuttermint"},
		Rule: "The path conditions of every scheduled execution imply: no execution was pending when the loop was entered; half steps are taken in order from the next one on the main chain, without gaps, only for batches older than the current one, and the pending half step is remembered; the batch's config is active; executions are by members after the batch's end block; encrypted half steps are executed before the timeout, with the decrypted transactions of this batch and at least threshold counted signatures unless the batch is empty, and are skipped only after the timeout; plain half steps carry the observed plain transactions of this batch.",
		Min:  map[string]int{"not pending": 1, "order": 1, "no gaps": 1, "cipher": 1, "plain": 1, "skip": 1, "remembered": 1},
		Run:  checkC22})
	register(&Check{ID: "C23", Mods: []string{"shuttermint"},
		Rule: "The path conditions of every scheduled appeal imply that there is an accusation that was not appealed and no appeal is pending, that the executed batch hash on chain equals the keyper's own decryption result and that there are at least threshold counted signatures, which are passed in ascending order of their keypers; the appeal is remembered and forgotten only when the main chain shows it. The path conditions of every scheduled accusation imply that the executed hash differs from the keyper's own decryption result, that it is an encrypted half step that was executed and not checked before, and that there is no accusation for it; the position of the check is advanced on every path.",
		Min:  map[string]int{"appeal": 1, "appeal remembered": 1, "appeal forgotten": 1, "sorted": 1, "accusation": 1, "checked": 1},
		Run:  checkC23})
}

var (
	mcBlock = Fld(dMain, "CurrentBlock")
	aCfg    = Idx(mcCfgs, Any)
)

// current returns the expressions of the observed main chain that a function of the decider uses.
func mainField(f *Facts, name string) poly {
	return polyOf(path(&Expr{Op: "param", S: "$0"}, "MainChain", name))
}

// batchEnd is the first block after a batch.
func batchEnd(cfg, b *Expr) poly {
	span := polyOf(sel(cfg, "BatchSpan"))
	return polyOf(sel(cfg, "StartBlockNumber")).add(polyOf(b).add(polyOf(sel(cfg, "StartBatchIndex")), -1).mul(span), 1).add(span, 1)
}

// responsible: cfg is an active main chain config responsible for the batch.
func responsible(f *Facts, cfg, b *Expr) bool {
	if !aCfg(cfg) {
		return false
	}
	return f.PolyLe(polyOf(sel(cfg, "StartBatchIndex")), polyOf(b)) && active(f, cfg)
}

func active(f *Facts, cfg *Expr) bool {
	sp := Fld(Is(cfg), "BatchSpan")
	return f.Lt(Num(0), sp) || f.Ne(sp, Num(0))
}

func forCfg(f *Facts, b *Expr, p func(cfg *Expr) bool) bool {
	return b != nil && exists(exprsIn(f, aCfg), func(cfg *Expr) bool { return responsible(f, cfg, b) && p(cfg) })
}

// isCurrentBatch: y is the batch that contains the observed block according to the active config.
func isCurrentBatch(f *Facts, y *Expr) bool {
	y = strip(y)
	if Call("BatchIndex", aCfg, mcBlock)(y) {
		return f.Le(Fld(Is(y.Args[0]), "StartBlockNumber"), mcBlock)
	}
	return exists(exprsIn(f, aCfg), func(cfg *Expr) bool {
		if !f.Le(Fld(Is(cfg), "StartBlockNumber"), mcBlock) {
			return false
		}
		start := polyOf(sel(cfg, "StartBatchIndex"))
		if polyEq(polyOf(y), start) && f.Eq(Fld(Is(cfg), "BatchSpan"), Num(0)) {
			return true
		}
		// start + (block - startBlock) / span
		q := Bin("/", Bin("-", mcBlock, Fld(Is(cfg), "StartBlockNumber")), Fld(Is(cfg), "BatchSpan"))
		return y.Op == "bin" && y.S == "+" && (q(strip(y.Args[0])) && polyEq(polyOf(y.Args[1]), start) || q(strip(y.Args[1])) && polyEq(polyOf(y.Args[0]), start))
	})
}

func lessThan(f *Facts, x M) []*Expr {
	var r []*Expr
	for _, k := range f.keys() {
		g := f.m[k]
		if g.Op == "lt" && (x(g.A[0]) || x(strip(g.A[0]))) {
			r = append(r, g.A[1])
		}
		if g.Op == "le" {
			if y := strip(g.A[0]); y.Op == "bin" && y.S == "+" && Num(1)(y.Args[1]) && x(y.Args[0]) {
				r = append(r, g.A[1])
			}
		}
	}
	return r
}

var anEKG = Idx(Fld(dState, "EKGs"), Any)

// ekgOf: an eon key of the eon E
func ekgOf(f *Facts, K, E *Expr) bool {
	a, b := Fld(Is(K), "Eon"), Fld(Is(E), "Eon")
	return f.Eq(a, b) || (f.Le(b, a) || f.Le(a, b)) && len(E.Args) == 2 && searched(E.Args[1], Any)
}

func checkC19(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	kind := "EpochSecretKeyShare"
	ep := func(r *act) *Expr {
		if x := r.body["Epoch"]; x != nil {
			return strip(x)
		}
		return &Expr{Op: "opaque", S: "none"}
	}
	c.eachAct(as, kind, "closed batch", func(r *act) bool {
		f, b := r.a.Facts, ep(r)
		return exists(lessThan(f, Strip(Is(b))), func(y *Expr) bool { return isCurrentBatch(f, y) }) &&
			forCfg(f, b, func(cfg *Expr) bool {
				return f.PolyLt(mainField(f, "CurrentBlock"), batchEnd(cfg, b).add(polyOf(sel(cfg, "ExecutionTimeout")), 1))
			})
	}, "the share of a batch that has not ended or has timed out is published")
	c.eachAct(as, kind, "keyper", func(r *act) bool {
		f, b := r.a.Facts, ep(r)
		return f.Eq(Idx(Fld(Or(Call("FindBatchConfigByBatchIndex", dShut, Strip(Is(b))), func(x *Expr) bool {
			return Idx(Fld(dShut, "BatchConfigs"), Any)(x) && f.PolyLe(polyOf(sel(x, "StartBatchIndex")), polyOf(b))
		}), "Keypers"), Any), self)
	}, "the share is published although the keyper may not belong to the batch's keyper set")
	c.eachAct(as, kind, "eon", func(r *act) bool {
		f, b := r.a.Facts, ep(r)
		if r.body["Share"] == nil || r.body["Eon"] == nil {
			return false
		}
		return exists(exprsIn(f, dEon), func(E *Expr) bool {
			return f.PolyLe(polyOf(path(E, "StartEvent", "BatchIndex")), polyOf(b)) && exists(exprsIn(f, anEKG), func(K *Expr) bool {
				kg := Fld(Is(K), "EpochKG")
				return ekgOf(f, K, E) && contains(r.body["Share"], Fld(kg, "SecretKeyShare")) &&
					(contains(r.body["Share"], Is(b)) || f.Did(Call("PutUint64", Any, Any, Strip(Is(b)))) || f.Did(Call("PutUint64", Any, Strip(Is(b))))) &&
					f.matchUpTo(r.body["Eon"], Strip(Or(Fld(Is(K), "Eon"), Fld(kg, "Eon"), Fld(Is(E), "Eon"))))
			})
		})
	}, "the share is not computed for this batch with the secret share of the eon responsible for it")
	c.eachAct(as, kind, "not known", func(r *act) bool {
		return r.a.Facts.NotHas(Fld(Fld(anEKG, "EpochKG"), "SecretKeys"), Strip(Is(ep(r))))
	}, "a share is published although the epoch's key is known")
	c.eachAct(as, kind, "once", func(r *act) bool {
		return r.a.Facts.PolyLe(polyOf(path(&Expr{Op: "param", S: "$0"}, "State", "NextEpochSecretShare")), polyOf(ep(r)))
	}, "the share of a batch may be published again")
	for _, s := range as {
		for _, r := range s.acts {
			if r.kind() == kind {
				c.must(stored(e, s.s, "NextEpochSecretShare"), "once", "NextEpochSecretShare after "+s.s.where(e.P), "the publication is not remembered on every path")
				break
			}
		}
	}
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "store" && len(s.Alts) > 0 && Fld(dState, "NextEpochSecretShare")(s.Alts[0].Target) {
			c.each(s, "once", func(a *CAlt) bool { return isCurrentBatch(a.Facts, a.Args[0]) }, "the counter of published batches is not set to the current batch")
		}
	})
}

// stored: on every path through the site, one of the functions on the way to it stores the field before it returns.
func stored(e *Engine, s *CSite, field string) bool {
	at := []ssa.Instruction{s.In}
	for i := len(s.Path) - 1; i >= 0; i-- {
		at = append(at, s.Path[i].In)
	}
	for _, in := range at {
		sum := e.Summary(in.Parent())
		if sum == nil {
			continue
		}
		for _, st := range sum.Sites {
			set := (st.Kind == "store" || st.Kind == "mapupdate") && len(st.Alts) > 0 && st.Alts[0].Target != nil && st.Alts[0].Target.S == field && !(st.Kind == "store" && Nil(st.Alts[0].Args[0]))
			if !set && st.Kind == "call" {
				set = writesField(e, st, field)
			}
			if set && st.In != in && (follows(in, st.In, true) || before(st.In, in)) {
				return true
			}
		}
	}
	return false
}

func checkC20(c *Ctx) {
	e := c.shm()
	h := c.method(e, "shuttermint/keyper/epochkg.EpochKG", "HandleEpochSecretKeyShare")
	kg, sh := Param(0), Param(1)
	epoch := Strip(Fld(sh, "Epoch"))
	shares := Fld(kg, "SecretShares")
	keys := Fld(kg, "SecretKeys")
	prev := Idx(shares, epoch)
	c.walk(e, h, nil, func(s *CSite) {
		if len(s.Alts) == 0 {
			return
		}
		t := s.Alts[0].Target
		if s.Kind == "mapupdate" && (shares(t) || keys(t)) {
			c.each(s, "verified", func(a *CAlt) bool {
				id := Or(Sub(epoch), func(x *Expr) bool {
					return a.Facts.Did(Call("PutUint64", Any, Any, epoch)) || a.Facts.Did(Call("PutUint64", Any, epoch))
				})
				return epoch(a.Args[0]) && a.Facts.True(Call("VerifyEpochSecretKeyShare", Fld(sh, "Share"), Idx(Fld(kg, "PublicKeyShares"), Strip(Fld(sh, "Sender"))), id))
			}, "a share is used that was not verified for its sender and epoch")
		}
		compute := s.Kind == "call" && nameEnds(s.Name, "ComputeEpochSecretKey")
		if s.Kind == "mapupdate" && (shares(t) || keys(t)) || s.Kind == "delete" && shares(t) || compute {
			// once the shares were checked and removed, or the key computed from them, the list itself may be gone
			gone := func(a *CAlt) bool {
				return !shares(a.Target) && s.Kind != "delete" && a.Facts.Did(Call("delete:SecretShares", shares, epoch)) || s.Kind == "delete" && a.Facts.Did(Call("mapupdate:SecretKeys", keys, epoch, Any)) || s.Kind == "mapupdate" && keys(t) && a.Facts.Did(Call("ComputeEpochSecretKey"))
			}
			c.each(s, "distinct", func(a *CAlt) bool {
				return gone(a) || a.Facts.NotHas(keys, epoch) && a.Facts.All(prev, func(in *Facts) bool {
					return in.Ne(Fld(Idx(prev, Any), "Sender"), Fld(sh, "Sender"))
				})
			}, "two shares of the same sender may be used, or the key is computed again")
			n := func(x *Expr) bool {
				return polyEq(polyOf(x), polyOf(lenOf(&Expr{Op: "index", Args: []*Expr{path(&Expr{Op: "param", S: "$0"}, "SecretShares"), path(&Expr{Op: "param", S: "$1"}, "Epoch")}})).add(polyConst(1), 1)) ||
					Len(func(y *Expr) bool { l := listed(y, prev); return len(l) == 1 && sh(l[0]) })(x)
			}
			thr := Strip(Fld(kg, "Threshold"))
			c.each(s, "threshold", func(a *CAlt) bool {
				switch {
				case s.Kind == "mapupdate" && shares(a.Target):
					l := listed(a.Args[1], prev)
					return len(l) == 1 && sh(l[0]) && (a.Facts.Ne(Strip(n), thr) || a.Facts.Lt(Strip(n), thr))
				case s.Kind == "mapupdate" && !contains(a.Args[1], Call("ComputeEpochSecretKey")):
					return false
				case compute && !thr(strip(a.Args[2])):
					return false
				}
				return gone(a) || a.Facts.Eq(Strip(n), thr)
			}, "the key is not computed from exactly threshold shares, or a share is lost")
		}
		if s.Kind == "call" && s.Name == "append" && len(s.Alts[0].Args) == 2 && s.Fn != nil {
			v := s.Alts[0].Args[1]
			if v.Op == "list" && len(v.Args) == 1 && Or(Fld(Any, "Sender"), Fld(Any, "Share"))(strip(v.Args[0])) {
				c.each(s, "pairs", func(a *CAlt) bool {
					x := strip(a.Args[1].Args[0])
					el := x.Args[0]
					return el.Op == "index" && (listed(el.Args[0], prev) != nil || prev(el.Args[0]))
				}, "the list does not consist of the senders and shares of the collected shares")
				c.must(everyIteration(s.In), "pairs", "every collected share at "+s.where(e.P), "not every collected share is used")
			}
		}
	})
	for _, f := range e.P.Functions() {
		if !e.P.InRepo(f) || !strings.Contains(fnName(f), "/keyper") || !mentions(f, "SecretShares", "SecretKeys") {
			continue
		}
		sum := e.Summary(f)
		if sum == nil {
			continue
		}
		for _, st := range sum.Sites {
			if st.Kind != "store" && st.Kind != "mapupdate" && st.Kind != "delete" || len(st.Alts) == 0 {
				continue
			}
			for _, fl := range []string{"SecretShares", "SecretKeys"} {
				t := st.Alts[0].Target
				if t == nil || !isField(t, "epochkg.EpochKG", fl) && !contains(t, TF("epochkg.EpochKG", fl)) && !isField(t, "EpochKG", fl) && !contains(t, TF("EpochKG", fl)) || freshRoot(t) {
					continue
				}
				c.must(inPkg(f, "shuttermint/keyper/epochkg"), "only writer", fl+" in "+fnName(f)+" at "+e.P.pos(st.In), "collected shares or keys are modified outside the epoch key generation")
			}
		}
	}
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "call" || len(s.Alts) == 0 || !nameEnds(s.Name, "HandleEpochSecretKeyShare") {
			return
		}
		(&complete{e: e, rule: "shares handled", what: "HandleEpochSecretKeyShare",
			elem: func(t types.Type) bool { return typeBase(t) == "shutterevents.EpochSecretKeyShare" },
			did:  Call("HandleEpochSecretKeyShare"),
			skip: func(f *Facts) bool { return noParticipant(f) || f.HasKey(Fld(Any, "SecretKeys"), Any) }}).check(c, s)
		c.each(s, "share contents", func(a *CAlt) bool {
			k := strip(a.Args[0])
			m := structFields(a.Args[1])
			if !Fld(anEKG, "EpochKG")(k) || m == nil || m["Sender"] == nil || m["Epoch"] == nil {
				return false
			}
			K := k.Args[0]
			return eonEvents(a.Facts, "GetEpochSecretKeyShares", "EpochSecretKeyShares", func(E, ev *Expr) bool {
				return ekgOf(a.Facts, K, E) && a.Facts.Eq(Idx(Fld(Is(K), "Keypers"), Strip(Is(strip(m["Sender"])))), Fld(Is(ev), "Sender")) &&
					a.Facts.matchUpTo(m["Epoch"], Strip(Fld(Is(ev), "Epoch"))) && a.Facts.matchUpTo(m["Share"], Fld(Is(ev), "Share"))
			})
		}, "the share is not that of the event, or is attributed to another participant or eon")
	})
}

// mentions: the function selects one of the fields.
func mentions(f *ssa.Function, fields ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			name := ""
			switch x := in.(type) {
			case *ssa.FieldAddr:
				name = fieldName(x.X.Type(), x.Field)
			case *ssa.Field:
				name = fieldName(x.X.Type(), x.Field)
			}
			for _, y := range fields {
				if name == y {
					return true
				}
			}
		}
	}
	return false
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return ""
}

// everyIteration: the instruction is executed in every iteration of its innermost loop.
func everyIteration(in ssa.Instruction) bool {
	h := innermostLoop(in.Block())
	if h == nil {
		return true
	}
	return !loopAvoids(h, loopOf(h), map[*ssa.BasicBlock]bool{in.Block(): true})
}

// leavesEarly: the innermost loop around the instruction may be left, without the function failing,
// although its condition still holds.
func leavesEarly(in ssa.Instruction) bool {
	h := innermostLoop(in.Block())
	return h != nil && leavesLoop(h, loopOf(h), nil)
}

// leavesLoop: the loop may be left, without the function failing, although its condition still
// holds, other than from where it is done.
func leavesLoop(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool, done func(b *ssa.BasicBlock) bool) bool {
	var ok func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool
	ok = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		switch r := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return failedReturn(r)
		case *ssa.Panic:
			return true
		}
		for _, s := range b.Succs {
			if !ok(s, seen) {
				return false
			}
		}
		return true
	}
	// the condition may be tested anywhere, but then every iteration tests it before it does anything else
	cond := h
	for !isLoopExit(cond, l) && len(cond.Succs) == 1 && l[cond.Succs[0]] && cond.Succs[0] != h {
		cond = cond.Succs[0]
	}
	for b := range l {
		for _, s := range b.Succs {
			if b != cond && !l[s] && (done == nil || !done(b)) && !ok(s, map[*ssa.BasicBlock]bool{}) {
				return true
			}
		}
	}
	return false
}

func isLoopExit(b *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) bool {
	for _, s := range b.Succs {
		if !l[s] {
			return true
		}
	}
	return false
}

func checkC21(c *Ctx) {
	e := c.shm()
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	stB := Fld(dState, "Batches")
	mcB := Fld(dMain, "Batches")
	shB := Fld(dShut, "Batches")
	chained, hashes := chainHashes(c, e), checkHash(c, e)
	c.walk(e, root, nil, func(s *CSite) {
		if len(s.Alts) == 0 {
			return
		}
		a0 := s.Alts[0]
		switch {
		case s.Kind == "call" && len(a0.Args) > 0 && (strings.HasPrefix(s.Name, "sort.") || nameEnds(s.Name, "rand.Shuffle")):
			c.each(s, "decrypted order", func(a *CAlt) bool {
				return !contains(a.Args[0], Call("Shuffle", Any, Idx(Fld(Any, "SecretKeys"), Any)))
			},
				"the decrypted transactions are put into another order")
		case s.Kind == "store" && a0.Target != nil && Idx(Sub(Call("Shuffle", Any, Idx(Fld(Any, "SecretKeys"), Any))), Any)(a0.Target):
			c.must(false, "decrypted order", "store at "+s.where(e.P), "a decrypted transaction is replaced")
		case s.Kind == "mapupdate" && stB(a0.Target):
			c.each(s, "decrypted batch", func(a *CAlt) bool {
				b := strip(a.Args[0])
				m := structFields(a.Args[1])
				if m == nil || m["BatchIndex"] == nil || m["DecryptedTransactions"] == nil || m["DecryptedBatchHash"] == nil || m["IsEmpty"] == nil {
					return false
				}
				key := Idx(Fld(Fld(anEKG, "EpochKG"), "SecretKeys"), Strip(Is(b)))
				enc := Fld(Idx(mcB, Strip(Is(b))), "EncryptedBatchHash")
				none := a.Facts.NotHas(mcB, Strip(Is(b)))
				z := m["IsEmpty"]
				sum, signed := strip(m["DecryptedBatchHash"]), m["DecryptionSignatureHash"]
				if sum.Op != "call" || !chained[sum.S] || !contains(sum, Is(strip(m["DecryptedTransactions"]))) ||
					signed == nil || !a.Facts.Did(func(x *Expr) bool {
					return x.Op == "call" && hashes[x.S] && contains(x, Is(sum)) && contains(x, Is(b)) && (contains(x, enc) || none)
				}) {
					return false
				}
				return a.Facts.matchUpTo(m["BatchIndex"], Strip(Is(b))) &&
					Call("Shuffle", Any, key)(strip(m["DecryptedTransactions"])) &&
					(Bin("==", enc, isZero)(z) || Bin("==", isZero, enc)(z) || none && (Bin("==", isZero, isZero)(z) || Is(boolExpr(true))(z))) &&
					a.Facts.HasKey(Fld(Fld(anEKG, "EpochKG"), "SecretKeys"), Strip(Is(b))) && Nil(m["VerifiedSignatures"])
			}, "the stored batch is not the decryption of this batch's transactions with this epoch's key")
		case s.Kind == "mapupdate" && Fld(Idx(stB, Any), "VerifiedSignatures")(a0.Target):
			c.each(s, "counted signature", func(a *CAlt) bool {
				f := a.Facts
				st := a.Target.Args[0]
				snd := a.Args[0]
				return exists(append(eqsAll(f, snd), exprsIn(f, Fld(Idx(Fld(Idx(shB, Any), "DecryptionSignatures"), Any), "Sender"))...), func(x *Expr) bool {
					if !Fld(Idx(Fld(Idx(shB, Any), "DecryptionSignatures"), Any), "Sender")(x) || !f.matchUpTo(snd, Is(x)) {
						return false
					}
					ev := x.Args[0]
					b := unsliced(ev.Args[0]).Args[0].Args[1] // the index of the batch
					return forCfg(f, b, func(cfg *Expr) bool { return f.Eq(Idx(Fld(Is(cfg), "Keypers"), Any), Is(x)) }) &&
						(f.NotHas(Is(a.Target), Is(snd)) || freshMap(f, a.Target)) &&
						signedBy(f, Fld(Is(st), "DecryptionSignatureHash"), Fld(Is(ev), "Signature"), x) &&
						f.False(Fld(Is(st), "IsEmpty")) &&
						(strip(b).Key() == sel(st, "BatchIndex").Key() || f.Eq(Is(strip(b)), Fld(Is(st), "BatchIndex")) || st.Op == "index" && st.Args[1].Key() == strip(b).Key()) &&
						f.matchUpTo(a.Args[1], Fld(Is(ev), "Signature"))
				})
			}, "a signature is counted that is not by the sender over this batch's hash, or whose sender is not a keyper of the batch or was counted before")
		case s.Kind == "store" && Fld(Idx(stB, Any), "DecryptionSignatureIndex")(a0.Target):
			c.each(s, "signature position", func(a *CAlt) bool {
				return a.Facts.matchUpTo(a.Args[0], Strip(Len(Fld(Idx(shB, Any), "DecryptionSignatures"))))
			}, "signatures are skipped or examined again")
		case s.Kind == "call" && s.Name == "append" && len(a0.Args) == 2 && a0.Args[1].Op == "list" && len(a0.Args[1].Args) == 1 && Ext(Call("EncryptedMessage).Decrypt"), 0)(strip(a0.Args[1].Args[0])):
			c.each(s, "decryption", func(a *CAlt) bool {
				x := strip(a.Args[1].Args[0]).Args[0]
				if len(x.Args) != 2 || !Idx(Fld(Fld(anEKG, "EpochKG"), "SecretKeys"), Any)(x.Args[1]) {
					return false
				}
				b := strip(x.Args[1].Args[1])
				f := a.Facts
				src := func(y *Expr) bool {
					return Idx(Fld(Idx(mcB, Strip(Is(b))), "EncryptedTransactions"), Any)(y) || f.NotHas(mcB, Strip(Is(b)))
				}
				return f.IsNil(Ext(Is(x), 1)) && f.Did(Call("EncryptedMessage).Unmarshal", Any, src)) && f.IsNil(Call("EncryptedMessage).Unmarshal", Any, src))
			}, "a transaction is executed that is not the decryption of one of this batch's transactions with this epoch's key")
		}
	})
	as := c.actions(e)
	c.eachAct(as, "DecryptionSignature", "signs", func(r *act) bool {
		f := r.a.Facts
		b := r.body["BatchIndex"]
		if b == nil || r.body["Signature"] == nil {
			return false
		}
		st := Idx(stB, Strip(Is(strip(b))))
		return f.matchUpTo(copied(f, r.body["Signature"]), Ext(Call("crypto.Sign", Fld(st, "DecryptionSignatureHash"), Fld(dConf, "SigningKey")), 0)) &&
			f.False(Fld(st, "IsEmpty")) &&
			forCfg(f, strip(b), func(cfg *Expr) bool {
				return f.Lt(Strip(Len(Fld(st, "VerifiedSignatures"))), Fld(Is(cfg), "Threshold"))
			}) && forCfg(f, strip(b), func(cfg *Expr) bool {
			return f.PolyLt(mainField(f, "CurrentBlock"), batchEnd(cfg, strip(b)).add(polyOf(sel(cfg, "ExecutionTimeout")), 1))
		})
	}, "the keyper signs something else than the batch's hash, or for an empty, timed out or already signed batch")
}

// copied is the list of which x is a copy made by appending it to an empty one.
func copied(f *Facts, x *Expr) *Expr {
	for _, y := range f.eqs(x) {
		if isCopy(f, y) {
			return copied(f, y.Args[1])
		}
	}
	return x
}

// freshMap: m was just made and has no elements.
func freshMap(f *Facts, m *Expr) bool {
	return exists(eqsAll(f, m), func(x *Expr) bool {
		return x.Key() != m.Key() && x.T != nil && isMapType(x.T) && (x.Op == "make" || x.Op == "struct" || x.Op == "alloc" || x.Op == "opaque" || strings.HasSuffix(x.Key(), "{}")) && len(x.Fields) == 0 && !f.Did(Call("mapupdate:"+m.S, Is(m)))
	})
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func baseTyped(t string) M {
	return func(e *Expr) bool { return e != nil && e.T != nil && typeBase(e.T) == "observe."+t }
}

// eqsAll: x, what it is known to be equal to, and the parts that are calls with known results.
func eqsAll(f *Facts, x *Expr) []*Expr {
	r := f.eqs(x)
	if y := strip(x); y != x {
		r = append(r, f.eqs(y)...)
	}
	return r
}

// unsliced is the list of which x is a part.
func unsliced(x *Expr) *Expr {
	for x.Op == "slice" {
		x = x.Args[0]
	}
	return x
}

// emptyBatch: x is a fresh batch without transactions, used when the chain has none for b.
func emptyBatch(f *Facts, x *Expr, batches M, b *Expr) bool {
	m := structFields(x)
	return m != nil && Nil(m["EncryptedTransactions"]) && f.NotHas(batches, Strip(Is(b)))
}

func emptyBatchIn(f *Facts, batches M, b *Expr) bool { return f.NotHas(batches, Strip(Is(b))) }

// signedBy: the signature over hash was made by addr.
func signedBy(f *Facts, hash, sig M, addr *Expr) bool {
	pk := Call("crypto.SigToPub", hash, sig)
	who := Call("crypto.PubkeyToAddress", Sub(pk))
	return f.Eq(who, Is(addr)) || f.True(Call("VerifySignature", Any, Is(addr), sig)) && f.Eq(Call("crypto.PubkeyToAddress"), Is(addr)) || f.True(Bin("==", who, Is(addr)))
}

// checkHash: contents and order of the signed hash.
func checkHash(c *Ctx, e *Engine) map[string]bool {
	r := map[string]bool{}
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Name() == "hashPrefix" && f.Name() != "init" {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		// the writes to the hash in program order; parameters of f: decider, batch index, the two hashes
		var writes []hashWrite
		bufs := map[string][]string{}
		isBuf := func(x *Expr) bool {
			x = strip(x)
			return x.T != nil && typeBase(x.T) == "bytes.Buffer"
		}
		c.walk(e, f, nil, func(s *CSite) {
			if s.Kind != "call" || len(s.Alts) == 0 {
				return
			}
			a := s.Alts[0]
			if !(nameEnds(s.Name, "Write") || nameEnds(s.Name, "WriteTo") || nameEnds(s.Name, "Keccak256") || nameEnds(s.Name, "Keccak256Hash")) || len(a.Args) == 0 {
				return
			}
			part := func(x *Expr) []string {
				for k, v := range bufs {
					if contains(x, func(y *Expr) bool { return strings.HasSuffix(allocKey(y), strings.TrimPrefix(k, "alloc#")) }) {
						return v
					}
				}
				return hashPart(x, a)
			}
			c.must(unconditional(s), "hash contents", "call of "+s.Name+" at "+s.where(e.P), "a part of the hash may be left out")
			if isBuf(a.Args[0]) && !nameEnds(s.Name, "WriteTo") {
				k := allocKey(a.Args[0])
				for _, x := range a.Args[1:] {
					bufs[k] = append(bufs[k], part(x)...)
				}
				return
			}
			w := hashWrite{s: s}
			for _, x := range a.Args {
				xs := []*Expr{x}
				if y := strip(x); y.Op == "list" {
					xs = y.Args
				} else if y.Op == "index" && strip(y.Args[0]).Op == "list" && strings.Contains(y.Args[1].Key(), "≥") {
					xs = strip(y.Args[0]).Args // one after the other, in a loop
				}
				for _, y := range xs {
					w.parts = append(w.parts, part(y)...)
				}
			}
			writes = append(writes, w)
		})
		got := hashParts(writes)
		want := []string{"prefix", "batcher", "index", "hash1", "hash2"}
		ok := len(got) == len(want)
		for i := range got {
			if ok && got[i] != want[i] {
				ok = false
			}
		}
		c.must(ok, "hash contents", fnName(f), "the hash covers "+strs(got)+" instead of "+strs(want))
		r[fnName(f)] = true
	}
	return r
}

type hashWrite struct {
	s     *CSite
	parts []string
}

// hashParts puts the writes into the order in which they happen.
func hashParts(ws []hashWrite) []string {
	sort.SliceStable(ws, func(i, j int) bool {
		a, b := ws[i].s.In, ws[j].s.In
		return a.Parent() == b.Parent() && a.Block() != b.Block() && a.Block().Dominates(b.Block())
	})
	var r []string
	for _, w := range ws {
		r = append(r, w.parts...)
	}
	return r
}

// chainHashes checks the functions that hash lists: every element is hashed together with the hash of those before it.
func chainHashes(c *Ctx, e *Engine) map[string]bool {
	r := map[string]bool{}
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "[]byte" {
			continue
		}
		list := -1
		for i, p := range f.Params {
			if p.Type().String() == "[][]byte" {
				list = i
			}
		}
		if list < 0 {
			continue
		}
		var writes []hashWrite
		c.walk(e, f, nil, func(s *CSite) {
			if s.Kind != "call" || len(s.Alts) == 0 {
				return
			}
			w := hashWrite{s: s}
			switch {
			case nameEnds(s.Name, "Reset"), nameEnds(s.Name, "NewLegacyKeccak256") && innermostLoop(s.In.Block()) != nil:
				w.parts = []string{"start"}
				writes = append(writes, w)
				return
			case nameEnds(s.Name, "Write"):
			case nameEnds(s.Name, "Keccak256"), nameEnds(s.Name, "Keccak256Hash"):
				w.parts = []string{"start"}
			default:
				return
			}
			args := s.Alts[0].Args
			if nameEnds(s.Name, "Write") {
				args = args[1:]
			}
			for _, x := range args {
				xs := []*Expr{x}
				if y := strip(x); y.Op == "list" {
					xs = y.Args
				}
				for _, y := range xs {
					switch y = strip(y); {
					case Idx(Param(list), Any)(y):
						w.parts = append(w.parts, "element")
					case y.Op == "phi":
						w.parts = append(w.parts, "hash so far")
					default:
						w.parts = append(w.parts, "something else")
					}
				}
			}
			c.must(unconditional(s) && innermostLoop(s.In.Block()) != nil, "hash contents", "call of "+s.Name+" at "+s.where(e.P), "a part of the hash may be left out")
			writes = append(writes, w)
		})
		if len(writes) == 0 {
			continue
		}
		got, want := strs(hashParts(writes)), strs([]string{"start", "element", "hash so far"})
		c.must(got == want, "hash contents", fnName(f), "the hash covers "+got+" instead of "+want)
		r[fnName(f)] = true
	}
	return r
}

// unconditional: every path through the functions on the way to the site passes it, for each element of the lists it is used for.
func unconditional(s *CSite) bool {
	ins := []ssa.Instruction{s.In}
	for _, p := range s.Path {
		ins = append(ins, p.In)
	}
	for _, in := range ins {
		b := in.Block()
		for h := innermostLoop(b); h != nil; h = innermostLoop(b) {
			l := loopOf(h)
			if h != b && loopAvoids(h, l, map[*ssa.BasicBlock]bool{b: true}) || leavesLoop(h, l, nil) {
				return false
			}
			// the loop as a whole stands for the instruction
			if len(h.Preds) == 0 {
				return false
			}
			b = h.Idom()
			if b == nil {
				return false
			}
			if !postdominated(b, h) {
				return false
			}
		}
		if entry := in.Parent().Blocks[0]; entry != b && !postdominated(entry, b) {
			return false
		}
	}
	return true
}

// postdominated: every path from a to a return passes b.
func postdominated(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var ok func(x *ssa.BasicBlock) bool
	ok = func(x *ssa.BasicBlock) bool {
		if x == b || seen[x] || endsInPanic(x) {
			return true
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return false
		}
		for _, y := range x.Succs {
			if !ok(y) {
				return false
			}
		}
		return true
	}
	return ok(a)
}

// allocKey identifies a local variable, whatever is known about its contents.
func allocKey(x *Expr) string {
	x = strip(x)
	k := strings.TrimPrefix(x.Key(), "&")
	if i := strings.IndexByte(k, '{'); i > 0 {
		k = k[:i]
	}
	return k
}

func strs(xs []string) string {
	r := ""
	for i, x := range xs {
		if i > 0 {
			r += ", "
		}
		r += x
	}
	return r
}

func hashPart(x *Expr, a *CAlt) []string {
	switch {
	case contains(x, Global("hashPrefix")):
		return []string{"prefix"}
	case contains(x, func(y *Expr) bool { return y.Op == "field" && y.S == "BatcherContractAddress" }):
		return []string{"batcher"}
	}
	for i := 1; i < 4; i++ {
		if contains(x, Param(i)) {
			return []string{[]string{"", "index", "hash1", "hash2"}[i]}
		}
	}
	if a.Facts.Did(Call("PutUint64", Any, Is(x), Strip(Param(1)))) || a.Facts.Did(Call("PutUint64", Is(x), Strip(Param(1)))) {
		return []string{"index"}
	}
	return nil
}

var startHalf = "NumExecutionHalfSteps"

func checkC22(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	half := func(r *act) *Expr { // the half step
		b := r.body["BatchIndex"]
		if b == nil {
			return &Expr{Op: "opaque", S: "none"}
		}
		b = strip(b)
		if b.Op == "bin" && b.S == "/" && Num(2)(b.Args[1]) {
			return strip(b.Args[0])
		}
		return &Expr{Op: "opaque", S: "none"}
	}
	batch := func(r *act) *Expr {
		if r.body["BatchIndex"] == nil {
			return &Expr{Op: "opaque", S: "none"}
		}
		return strip(r.body["BatchIndex"])
	}
	even := func(f *Facts, h *Expr) bool {
		return f.Eq(Bin("%", Strip(Is(h)), Num(2)), Num(0)) || f.Ne(Bin("%", Strip(Is(h)), Num(2)), Num(1))
	}
	odd := func(f *Facts, h *Expr) bool {
		m := Bin("%", Strip(Is(h)), Num(2))
		return f.Ne(m, Num(0)) || f.Eq(m, Num(1))
	}
	pend := Fld(dState, "PendingHalfStep")
	for _, kind := range []string{"ExecuteCipherBatch", "ExecutePlainBatch", "SkipCipherBatch"} {
		c.eachAct(as, kind, "not pending", func(r *act) bool {
			return r.a.Facts.IsNil(pend) || r.a.Facts.Did(Call("wasnil", pend))
		}, "a transaction for a half step may be sent although another one is pending")
		c.eachAct(as, kind, "order", func(r *act) bool {
			f, h := r.a.Facts, half(r)
			next := mainField(f, startHalf)
			if !f.PolyLe(next, polyOf(h)) {
				return false
			}
			if f.PolyLt(polyOf(h), next) {
				return true // impossible
			}
			return exists(exprsIn(f, func(x *Expr) bool { return Call("BatchIndex", aCfg, mcBlock)(x) || x.Op == "bin" && x.S == "+" }), func(y *Expr) bool {
				return isCurrentBatch(f, y) && f.PolyLt(polyOf(h), polyOf(y).mul(polyConst(2)))
			}) || f.PolyLt(polyOf(h), polyOf(cfgStart(f)).mul(polyConst(2)))
		}, "a half step is executed that was executed before or belongs to a batch that has not ended")
	}
	member := func(f *Facts, b *Expr, p func(cfg *Expr) bool) bool {
		return forCfg(f, b, func(cfg *Expr) bool { return f.Eq(Idx(Fld(Is(cfg), "Keypers"), Any), self) && p(cfg) })
	}
	// beyond: block >= bound + something that is not negative
	beyond := func(f *Facts, bound poly) bool {
		now := mainField(f, "CurrentBlock")
		for _, g := range f.m {
			if g.Op != "le" && g.Op != "lt" || !mcBlock(strip(g.A[1])) {
				continue
			}
			d := polyOf(g.A[0]).add(bound, -1)
			ok := true
			for _, n := range d {
				ok = ok && n >= 0
			}
			if ok {
				return true
			}
		}
		return f.PolyLe(bound, now)
	}
	stB := Fld(dState, "Batches")
	c.eachAct(as, "ExecuteCipherBatch", "cipher", func(r *act) bool {
		f, h, b := r.a.Facts, half(r), batch(r)
		st := Idx(stB, Strip(Is(b)))
		return even(f, h) && member(f, b, func(cfg *Expr) bool {
			return (f.True(Fld(st, "IsEmpty")) || f.Le(Fld(Is(cfg), "Threshold"), Strip(Len(Fld(st, "VerifiedSignatures"))))) &&
				f.PolyLt(mainField(f, "CurrentBlock"), batchEnd(cfg, b).add(polyOf(sel(cfg, "ExecutionTimeout")), 1)) &&
				beyond(f, batchEnd(cfg, b)) &&
				r.body["KeyperIndex"] != nil && f.Eq(Idx(Fld(Is(cfg), "Keypers"), Strip(Is(strip(r.body["KeyperIndex"])))), self) &&
				r.is("TransactionGasLimit", Fld(Is(cfg), "TransactionGasLimit"))
		}) && r.is("Transactions", Fld(st, "DecryptedTransactions")) &&
			(r.is("CipherBatchHash", Fld(Idx(Fld(dMain, "Batches"), Strip(Is(b))), "EncryptedBatchHash")) || f.NotHas(Fld(dMain, "Batches"), Strip(Is(b))) && r.is("CipherBatchHash", isZero))
	}, "encrypted transactions are executed without enough signatures, too early or late, by a non-member, or with other contents than decrypted")
	c.eachAct(as, "ExecutePlainBatch", "plain", func(r *act) bool {
		f, h, b := r.a.Facts, half(r), batch(r)
		return odd(f, h) && member(f, b, func(cfg *Expr) bool {
			return beyond(f, batchEnd(cfg, b)) && r.is("TransactionGasLimit", Fld(Is(cfg), "TransactionGasLimit"))
		}) && (r.is("Transactions", Fld(Idx(Fld(dMain, "Batches"), Strip(Is(b))), "PlainTransactions")) || f.NotHas(Fld(dMain, "Batches"), Strip(Is(b))) && r.is("Transactions", Nil))
	}, "plain transactions are executed too early, by a non-member, or with other contents than observed")
	c.eachAct(as, "SkipCipherBatch", "skip", func(r *act) bool {
		f, h, b := r.a.Facts, half(r), batch(r)
		return even(f, h) && forCfg(f, b, func(cfg *Expr) bool {
			return beyond(f, batchEnd(cfg, b).add(polyOf(sel(cfg, "ExecutionTimeout")), 1))
		})
	}, "an encrypted half step is skipped before its timeout, or a plain one is skipped")
	isExec := func(r *act) bool {
		switch r.kind() {
		case "ExecuteCipherBatch", "ExecutePlainBatch", "SkipCipherBatch":
			return true
		}
		return false
	}
	halves := map[string]bool{}
	for _, s := range as {
		for _, r := range s.acts {
			if isExec(r) {
				halves[half(r).Key()] = true
			}
		}
	}
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "store" || len(s.Alts) == 0 || !pend(s.Alts[0].Target) || Nil(s.Alts[0].Args[0]) {
			if s.Kind == "store" && len(s.Alts) > 0 && pend(s.Alts[0].Target) {
				c.each(s, "remembered", func(a *CAlt) bool {
					return a.Facts.Lt(pend, Fld(dMain, startHalf))
				}, "the pending half step is forgotten before it was executed")
			}
			return
		}
		c.each(s, "remembered", func(a *CAlt) bool {
			x := a.Args[0]
			ok := false
			for k := range halves {
				ok = ok || x.Key() == k || a.Facts.matchUpTo(x, func(y *Expr) bool { return y.Key() == k }) || fieldsHave(x, k) || contains(x, func(y *Expr) bool { return y.Key() == k })
			}
			return ok
		}, "another half step is remembered as pending than the one for which a transaction was scheduled")
		c.must(everyIteration(s.In), "no gaps", "loop at "+s.where(e.P), "a half step may be scheduled although the one before was not")
	})
	for _, s := range as {
		for _, r := range s.acts {
			if !isExec(r) {
				continue
			}
			ok, why := followedBy(e, s.s, Call("store:Actions"), func(al *Alt) bool { return al.Facts.Did(Call("store:PendingHalfStep")) }, nil)
			if !ok {
				for i := len(s.s.Path) - 1; i >= 0 && !ok; i-- {
					at := s.s.Path[i].In
					for _, st := range e.Summary(at.Parent()).Sites {
						if st.Kind == "store" && len(st.Alts) > 0 && st.Alts[0].Target != nil && st.Alts[0].Target.S == "PendingHalfStep" && !Nil(st.Alts[0].Args[0]) &&
							(mustPass(at, st.In) || before(st.In, at)) {
							ok = true
						}
					}
				}
			}
			c.must(ok, "remembered", "PendingHalfStep with "+s.s.where(e.P), "a scheduled execution is not remembered as pending: "+why)
			break
		}
	}
}

// byPosition: the function tells whether a numeric field of its first element is smaller than that of its second.
func byPosition(a *CAlt) bool {
	pos := func(x *Expr) int {
		k := strip(x).Key()
		return int(k[len(k)-1])
	}
	ordered := func(x, y *Expr, strict bool) bool {
		x, y = strip(x), strip(y)
		if x.Op != "field" || y.Op != "field" || x.S != y.S || x.T == nil || x.Args[0].Op != "index" || y.Args[0].Op != "index" {
			return false
		}
		b, ok := x.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && (pos(x.Args[0].Args[1]) < pos(y.Args[0].Args[1])) == strict
	}
	r := a.Args[0]
	if r.Op == "bin" && len(r.Args) == 2 {
		return r.S == "<" && ordered(r.Args[0], r.Args[1], true) || r.S == ">" && ordered(r.Args[1], r.Args[0], true)
	}
	for _, g := range a.Facts.m {
		if constTrue(r) && g.Op == "lt" && ordered(g.A[0], g.A[1], true) || K("false")(r) && (g.Op == "le" || g.Op == "lt") && ordered(g.A[0], g.A[1], false) {
			return true
		}
	}
	return false
}

// wholeLoops: none of the loops around the site or the calls that lead to it is left early.
func (c *Ctx) wholeLoops(e *Engine, s *CSite, rule, msg string) {
	ins := []ssa.Instruction{s.In}
	for _, p := range s.Path {
		ins = append(ins, p.In)
	}
	for _, in := range ins {
		for _, h := range in.Parent().Blocks {
			if !isLoopHead(h) {
				continue
			}
			if l := loopOf(h); l[in.Block()] {
				c.must(!leavesLoop(h, l, nil), rule, "loop in "+fnName(in.Parent())+" around "+e.P.pos(in), msg)
			}
		}
	}
}

func isZero(e *Expr) bool { return e != nil && (e.Op == "zero" || Num(0)(e)) }

func fieldsHave(x *Expr, k string) bool {
	for _, v := range x.Fields {
		if v.Key() == k {
			return true
		}
	}
	return false
}

// cfgStart: the first batch of an inactive active config.
func cfgStart(f *Facts) *Expr {
	for _, cfg := range exprsIn(f, aCfg) {
		if isCurrentBatch(f, sel(cfg, "StartBatchIndex")) {
			return sel(cfg, "StartBatchIndex")
		}
	}
	return &Expr{Op: "opaque", S: "none"}
}

func checkC23(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	accs := Fld(dMain, "Accusations")
	recs := Fld(dMain, "CipherExecutionReceipts")
	stB := Fld(dState, "Batches")
	pa := Fld(dState, "PendingAppeals")
	sameHash := func(f *Facts, h, b *Expr, same bool) bool {
		own, theirs := Fld(Idx(stB, Strip(Is(b))), "DecryptedBatchHash"), Sub(Fld(Idx(recs, Strip(Is(h))), "BatchHash"))
		x := Or(Call("bytes.Equal", own, theirs), Call("bytes.Equal", theirs, own))
		if same {
			return f.True(x) || f.Eq(Call("bytes.Compare"), Num(0))
		}
		return f.False(x) || f.Ne(own, theirs)
	}
	c.eachAct(as, "Appeal", "appeal", func(r *act) bool {
		f := r.a.Facts
		m := structFields(r.body["Authorization"])
		if m == nil || m["HalfStep"] == nil || m["BatchHash"] == nil || m["SignerIndices"] == nil || m["Signatures"] == nil {
			return false
		}
		h := strip(m["HalfStep"])
		return exists(exprsIn(f, Idx(accs, Any)), func(ac *Expr) bool {
			if !f.matchUpTo(h, Or(Fld(Is(ac), "HalfStep"), Is(ac.Args[1]))) || !f.False(Fld(Is(ac), "Appealed")) {
				return false
			}
			return exists(exprsIn(f, Idx(stB, Any)), func(st *Expr) bool {
				b := strip(st.Args[1])
				return Bin("/", Strip(Or(Fld(Is(ac), "HalfStep"), Is(h))), Num(2))(b) && sameHash(f, h, b, true) &&
					(contains(m["BatchHash"], Fld(Is(st), "DecryptedBatchHash")) || contains(m["BatchHash"], Fld(Idx(recs, Any), "BatchHash"))) &&
					exists(exprsIn(f, aCfg), func(cfg *Expr) bool {
						return f.Le(Fld(Is(cfg), "Threshold"), Strip(Len(Fld(Is(st), "VerifiedSignatures")))) &&
							(responsible(f, cfg, b) || responsible(f, cfg, sel(st, "BatchIndex")))
					})
			})
		}) && (f.Did(Call("insertnew", pa, Strip(Is(h)))) || f.NotHas(pa, Strip(Is(h))))
	}, "an appeal is sent without an open accusation, against the keyper's own result, without enough signatures or twice")
	c.eachAct(as, "Appeal", "sorted", func(r *act) bool {
		return r.a.Facts.Did(Or(Call("sort.Slice"), Call("sort.Sort"), Call("sort.SliceStable"), Call("slices.SortFunc")))
	}, "the signatures are not sorted by keyper index")
	less := map[*ssa.Function]bool{}
	c.eachAct(as, "Accuse", "accusation", func(r *act) bool {
		f := r.a.Facts
		if r.body["HalfStep"] == nil || r.body["KeyperIndex"] == nil {
			return false
		}
		h := strip(r.body["HalfStep"])
		return exists(exprsIn(f, Idx(stB, Any)), func(st *Expr) bool {
			b := strip(st.Args[1])
			return Bin("/", Strip(Is(h)), Num(2))(b) && sameHash(f, h, b, false) && f.HasKey(stB, Is(b)) &&
				forCfg(f, b, func(cfg *Expr) bool {
					x := strip(r.body["KeyperIndex"])
					return f.Eq(Idx(Fld(Is(cfg), "Keypers"), Strip(Is(x))), self) || Ext(Call("KeyperIndex", Any, self), 0)(x) ||
						f.Did(Call("KeyperIndex", Is(cfg), self)) && !f.Did(Call("KeyperIndex", Is(cfg), Not(self))) && (Num(0)(x) || strings.Contains(x.Key(), ".KeyperIndex."))
				})
		}) && (f.HasKey(recs, Strip(Is(h))) || f.NonNil(Idx(recs, Strip(Is(h))))) && f.NotHas(accs, Strip(Is(h))) && f.Eq(Bin("%", Strip(Is(h)), Num(2)), Num(0)) &&
			f.PolyLe(polyOf(path(&Expr{Op: "param", S: "$0"}, "State", "HalfStepsChecked")), polyOf(h)) && f.PolyLt(polyOf(h), mainField(f, startHalf))
	}, "an accusation is sent although the execution agrees with the keyper's own result, was not for an encrypted half step, or was checked or accused before")
	for _, s := range as {
		for _, r := range s.acts {
			switch r.kind() {
			case "Appeal":
				c.wholeLoops(e, s.s, "appeal", "not all accusations are considered")
				ok := false
				why := "no insertion into the pending appeals in the same iteration"
				for i := len(s.s.Path) - 1; i >= 0 && !ok; i-- {
					at := s.s.Path[i].In
					for _, st := range e.Summary(at.Parent()).Sites {
						if st.Kind == "mapupdate" && len(st.Alts) > 0 && st.Alts[0].Target != nil && st.Alts[0].Target.S == "PendingAppeals" && (mustPass(at, st.In) || before(st.In, at)) {
							ok = true
						}
					}
				}
				if !ok {
					ok = r.a.Facts.Did(Call("insertnew", pa))
				}
				c.must(ok, "appeal remembered", s.s.where(e.P), why)
			case "Accuse":
				c.wholeLoops(e, s.s, "checked", "not all half steps are looked at")
				ok, why := followedBy(e, s.s, Call("store:Actions"), func(al *Alt) bool { return al.Facts.Did(Call("store:HalfStepsChecked")) }, nil)
				c.must(ok, "checked", "HalfStepsChecked after "+s.s.where(e.P), "the checked half steps are not remembered: "+why)
			}
			break
		}
	}
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if len(s.Alts) == 0 {
			return
		}
		switch {
		case s.Kind == "call" && (nameEnds(s.Name, "sort.Slice") || nameEnds(s.Name, "sort.SliceStable")):
			if ci, ok := s.In.(ssa.CallInstruction); ok && len(ci.Common().Args) == 2 {
				if f := closureFn(ci.Common().Args[1]); f != nil {
					less[f] = true
				}
			}
		case s.Kind == "return" && inPkg(s.Fn, "shuttermint/keyper") && (less[s.Fn] || s.Fn.Name() == "Less" && s.Fn.Signature.Recv() != nil):
			c.each(s, "sorted", func(a *CAlt) bool { return len(a.Args) == 1 && byPosition(a) }, "the signatures are not sorted by keyper index")
		case s.Kind == "delete" && pa(s.Alts[0].Target):
			c.each(s, "appeal forgotten", func(a *CAlt) bool {
				f, k := a.Facts, a.Args[1]
				return exists(exprsIn(f, Idx(accs, Any)), func(ac *Expr) bool {
					return f.True(Fld(Is(ac), "Appealed")) && (f.Eq(Is(strip(k)), Fld(Is(ac), "HalfStep")) || strip(ac.Args[1]).Key() == strip(k).Key())
				})
			}, "a pending appeal is forgotten although the main chain does not show it")
		case s.Kind == "store" && Fld(dState, "HalfStepsChecked")(s.Alts[0].Target):
			c.each(s, "checked", func(a *CAlt) bool { return a.Facts.matchUpTo(a.Args[0], Fld(dMain, startHalf)) }, "the position of the check is not the number of executed half steps")
		}
	})
}
