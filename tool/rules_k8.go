package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about how actions take effect: messages sent to shuttermint, transactions sent to the contracts.

func init() {
	register(&Check{ID: "C31", Mods: []string{"shuttermint"},
		Rule: "What is broadcast is the encoded result of signing the message with the sender's key, together with the chain's id, which is known or was read from the chain's blocks, and with a random number of full width whose generator is seeded with time or entropy. Sending succeeds only if the commit broadcast returned no error and both result codes are zero; the error for other codes is of a kind that is not retriable, the error of a failed broadcast is not; an error is retriable unless it says otherwise.",
		Min:  map[string]int{"signed": 1, "nonce": 1, "chain": 1, "key": 2, "accepted": 2, "retry": 3},
		Run:  checkC31})
	register(&Check{ID: "C32", Mods: []string{"shuttermint"},
		Rule: "Every action's transaction calls the contract method of its kind with the action's own fields under the names of the method's parameters and the transaction options handed over, allows gas for every transaction of a batch, and reports exactly the contract's result (errors are only replaced by non-retriable ones); an action is expired exactly when the observed state shows that its effect has been achieved.",
		Min:  map[string]int{"call": 6, "arguments": 6, "result": 6, "gas": 3, "expired": 7},
		Run:  checkC32})
}

// neverRetried: the error's type says that it must not be retried.
func neverRetried(e *Engine, x *Expr) (isRetriable, never bool) {
	if x == nil || x.T == nil {
		return false, false
	}
	for x.Op == "iface" || x.Op == "conv" {
		x = x.Args[0]
	}
	t := x.T
	if _, ok := t.Underlying().(*types.Interface); ok {
		// an error made by a function of the repository
		ce, i := x, -1
		if x.Op == "ext" {
			ce = x.Args[0]
			i, _ = strconv.Atoi(x.S)
		}
		if ce.Op != "call" || ce.Fn == nil || len(ce.Fn.Blocks) == 0 || e.busyErr[ce.Fn] {
			return false, false
		}
		if e.busyErr == nil {
			e.busyErr = map[*ssa.Function]bool{}
		}
		e.busyErr[ce.Fn] = true
		defer delete(e.busyErr, ce.Fn)
		n := 0
		for _, o := range e.Summary(ce.Fn).Outs {
			j := i
			if j < 0 {
				j = len(o.Results) - 1
			}
			if j >= len(o.Results) || Nil(o.Results[j]) {
				continue
			}
			if is, nv := neverRetried(e, o.Results[j]); !nv {
				return is, false
			}
			n++
		}
		return n > 0, n > 0
	}
	ms := e.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != "IsRetriable" {
			continue
		}
		f := e.P.Prog.MethodValue(ms.At(i))
		if f == nil || len(f.Blocks) == 0 {
			return true, false
		}
		sum := e.Summary(f)
		for _, o := range sum.Outs {
			if len(o.Results) != 1 || !K("false")(o.Results[0]) {
				return true, false
			}
		}
		return true, len(sum.Outs) > 0
	}
	return false, false
}

func (c *Ctx) pkgFunc(e *Engine, rel string) *ssa.Function {
	for _, f := range e.P.Functions() {
		if fnName(f) == rel {
			return f
		}
	}
	c.must(false, "anchor", rel, "function not found")
	return nil
}

func checkC31(c *Ctx) {
	e := NewEngine(c.shm().P)
	send := c.method(e, "shuttermint/keyper/fx.RPCMessageSender", "SendMessage")
	sign := c.pkgFunc(e, "shuttermint/shmsg.SignMessage")
	if send == nil || sign == nil {
		return
	}
	e.Opaque = map[*ssa.Function]bool{sign: true}
	recv := Param(0)
	chainID := Fld(recv, "chainID")
	signed := Call("shmsg.SignMessage")
	commit := Call("BroadcastTxCommit")
	c.walk(e, send, nil, func(s *CSite) {
		switch {
		case s.Kind == "call" && strings.Contains(s.Name, ".BroadcastTx"):
			c.each(s, "signed", func(a *CAlt) bool {
				tx := a.Facts.eqs(strip(a.Args[len(a.Args)-1]))
				return exists(tx, func(x *Expr) bool {
					x = strip(x)
					if !Call("base64.Encoding).EncodeToString", Global("base64.RawURLEncoding"), Any)(x) {
						return false
					}
					sm := x.Args[1]
					if !Ext(signed, 0)(sm) || !a.Facts.IsNil(Ext(Is(sm.Args[0]), 1)) {
						return false
					}
					sc := sm.Args[0]
					m := structFields(sc.Args[0])
					return a.Facts.matchUpTo(sc.Args[1], Fld(recv, "signingKey")) && m != nil && m["Msg"] != nil && Param(2)(m["Msg"]) &&
						m["ChainId"] != nil && a.Facts.matchUpTo(strip(m["ChainId"]), chainID) && m["RandomNonce"] != nil
				})
			}, "what is sent is not the encoded message, with the id of the chain and a random number, signed with the keyper's own key")
			c.each(s, "chain", func(a *CAlt) bool {
				return a.Facts.Ne(chainID, K(`""`)) || a.Facts.Did(Call("store:chainID"))
			}, "the chain's id may be unknown when a message is sent")
		case s.Kind == "store" && writeField(s.W) == "chainID":
			c.each(s, "chain", func(a *CAlt) bool {
				return exists(a.Facts.eqs(a.Args[0]), func(x *Expr) bool {
					if !Fld(Fld(Any, "Header"), "ChainID")(x) {
						return false
					}
					ok := false
					walkExpr(x, func(y *Expr) bool {
						if Call(".BlockchainInfo")(y) && a.Facts.IsNil(Ext(Is(y), 1)) {
							ok = true
						}
						return true
					})
					return ok
				})
			}, "the chain's id is not the one in the blocks of the chain to which messages are sent")
		}
	})
	code := func(kind string) M { return Fld(Fld(Ext(commit, 0), kind), "Code") }
	okCode := func(f *Facts, kind string) bool {
		return f.Eq(code(kind), Num(0)) || f.True(Call(".IsOK", Fld(Ext(commit, 0), kind))) || f.False(Call(".IsErr", Fld(Ext(commit, 0), kind)))
	}
	badCode := func(f *Facts, kind string) bool {
		return f.Ne(code(kind), Num(0)) || f.False(Call(".IsOK", Fld(Ext(commit, 0), kind))) || f.True(Call(".IsErr", Fld(Ext(commit, 0), kind)))
	}
	accepted := func(f *Facts) bool {
		return f.Did(commit) && f.IsNil(Ext(commit, 1)) && okCode(f, "CheckTx") && okCode(f, "DeliverTx")
	}
	c.returns(e, send, "accepted", func(a *CAlt) bool {
		r := a.Args[len(a.Args)-1]
		if isPanic(r) {
			return true
		}
		if a.Facts.NonNil(Is(r)) || nonNilExpr(r) {
			return true
		}
		if !Nil(r) {
			f := a.Facts.add(mkFact("eq", r, &Expr{Op: "nil"}))
			return f == nil || e.Implies(f, func(f *Facts) bool { return f != a.Facts && accepted(f) })
		}
		return accepted(a.Facts)
	}, "a message counts as sent although it may not have been accepted, checked and executed without an error")
	c.returns(e, send, "retry", func(a *CAlt) bool {
		r := a.Args[len(a.Args)-1]
		if isPanic(r) {
			return true
		}
		_, never := neverRetried(e, r)
		switch {
		case !a.Facts.Did(commit):
			return !never
		case a.Facts.NonNil(Ext(commit, 1)):
			return !never
		case badCode(a.Facts, "CheckTx") || badCode(a.Facts, "DeliverTx"):
			return never
		}
		return true
	}, "a message that the chain rejected would be sent again and again, or one that could not be sent is given up")
	isr := c.pkgFunc(e, "shuttermint/keyper/fx.IsRetriable")
	if isr != nil {
		says := Call(".IsRetriable", func(x *Expr) bool { return contains(x, Param(0)) || Typed("fx.IRetriable")(x) })
		c.returns(e, isr, "retry", func(a *CAlt) bool {
			r := a.Args[0]
			if says(r) {
				return true
			}
			return yesNo(e, a.Facts, r, func(f *Facts) bool {
				return f.True(says) || f.False(func(x *Expr) bool { return x.Op == "istype" && strings.HasSuffix(x.S, "IRetriable") }) || f.False(Call("errors.As")) || f.IsNil(Param(0))
			}, func(f *Facts) bool { return f.False(says) })
		}, "an error is retriable unless its own IsRetriable says otherwise")
	}
	// the random number
	sl := newSlicer(e)
	n := 0
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") && !inPkg(f, "shuttermint/keyper/fx") && !inPkg(f, "shuttermint/shmsg") && (!inPkg(f, "shuttermint/contract") || isBinding(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				switch ownedField(fa.X.Type(), fa.Field) {
				case "MessageWithNonce.RandomNonce":
					if strings.HasSuffix(e.P.pos(in), ".pb.go") {
						continue
					}
					n++
					why := randomSource(sl, st.Val)
					c.must(why == "", "nonce", "store at "+e.P.pos(in), "the number that tells messages apart "+why)
				case "RPCMessageSender.signingKey", "Caller.signingKey":
					bad := ""
					sl.from(st.Val, func(v ssa.Value) bool {
						switch x := v.(type) {
						case *ssa.Parameter:
							return true
						case *ssa.UnOp:
							if fa, ok := x.X.(*ssa.FieldAddr); ok {
								n := ownedField(fa.X.Type(), fa.Field)
								if !strings.HasSuffix(n, ".SigningKey") && !strings.HasSuffix(n, ".signingKey") {
									bad = n
								}
							} else {
								return true
							}
						case *ssa.Field:
							if n := ownedField(x.X.Type(), x.Field); !strings.HasSuffix(n, ".SigningKey") && !strings.HasSuffix(n, ".signingKey") {
								bad = n
							}
						case *ssa.Call:
							if inPkg(x.Parent(), "shuttermint/keyper") || inPkg(x.Parent(), "shuttermint/keyper/fx") {
								bad = x.String()
							}
						case *ssa.Phi, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.Alloc:
							return true
						}
						return false
					})
					c.must(bad == "", "key", "store at "+e.P.pos(in), "the key for signing is not the configured signing key but "+bad)
				}
			}
		}
	}
	for _, f := range e.P.Functions() {
		if inPkg(f, "shuttermint/contract") && !isBinding(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if calls(in, "bind.NewKeyedTransactorWithChainID", "bind.NewKeyedTransactor", "bind.NewTransactor") {
						ca := in.(ssa.CallInstruction).Common()
						key, chain := false, false
						if u, ok := ca.Args[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								key = strings.HasSuffix(ownedField(fa.X.Type(), fa.Field), ".signingKey")
							}
						}
						if len(ca.Args) > 1 {
							sl.from(ca.Args[1], func(v ssa.Value) bool {
								if x, ok := v.(*ssa.Call); ok && x.Call.StaticCallee() != nil && x.Call.StaticCallee().Name() == "ChainID" {
									chain = true
								}
								return true
							})
						}
						c.must(key && chain, "key", "call at "+e.P.pos(in), "transactions are not signed with the caller's key for the chain of its node")
					}
				}
			}
		}
	}
	c.must(n > 0, "nonce", fnName(send), "no random number is set")
}

func ownedField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return ""
	}
	n := typeBase(t)
	if k := strings.LastIndex(n, "."); k >= 0 {
		n = n[k+1:]
	}
	return n + "." + st.Field(i).Name()
}

// nonNilExpr: the error is certainly not nil.
func nonNilExpr(x *Expr) bool {
	for x != nil && (x.Op == "iface" || x.Op == "conv") {
		x = x.Args[0]
	}
	if x == nil {
		return false
	}
	switch x.Op {
	case "alloc", "struct":
		return true
	case "call":
		switch x.S {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return true
		}
	}
	return false
}

// randomSource explains why a number is not random enough ("" if it is).
func randomSource(sl *slicer, v ssa.Value) string {
	why, seeded := "", true
	full, halves, any := false, 0, false
	sl.from(v, func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.REM, token.QUO, token.AND, token.SHR:
				why = "is only a part of a random number"
			}
		case *ssa.Convert:
			if from, ok := x.X.Type().Underlying().(*types.Basic); ok && from.Info()&types.IsInteger != 0 && x.X.Type().Underlying() != types.Typ[types.Uint64] {
				switch from.Kind() {
				case types.Uint64, types.Int64:
				case types.Uint32:
				default:
					why = "is only a part of a random number"
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				if x.Call.IsInvoke() && x.Call.Method.Name() == "Read" {
					return true
				}
				return false
			}
			n := f.RelString(nil)
			switch {
			case n == "math/rand.Uint64" || n == "math/rand.Uint32" || n == "(*math/rand.Rand).Uint64" || n == "(*math/rand.Rand).Uint32":
				any = true
				if strings.HasSuffix(n, "32") {
					halves++
				} else {
					full = true
				}
				if strings.HasPrefix(n, "math/rand.") {
					seeded = globallySeeded(sl)
				} else {
					seeded = entropic(sl, x.Call.Args[0])
				}
				return false
			case strings.HasPrefix(n, "crypto/rand."):
				full, any = true, true
				return false
			case strings.HasPrefix(n, "math/rand"):
				why = "has less than its full width"
				any = true
				return false
			}
		}
		return true
	})
	switch {
	case why != "":
		return why
	case !any:
		return "is not random"
	case !full && halves < 2:
		return "has less than its full width"
	case !seeded:
		return "comes from a generator that starts in the same state every time"
	}
	return ""
}

// globallySeeded: the program seeds the global random number generator when it starts, with something
// that differs from run to run, and nothing seeds it otherwise.
func globallySeeded(sl *slicer) bool {
	good := false
	var fs []*ssa.Function
	fs = append(fs, sl.e.P.Functions()...)
	for _, p := range sl.e.P.Prog.AllPackages() {
		if f := p.Func("init"); f != nil && sl.e.P.InRepo(f) {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !calls(in, "math/rand.Seed") {
					continue
				}
				if !entropic(sl, in.(ssa.CallInstruction).Common().Args[0]) {
					return false
				}
				if strings.HasPrefix(f.Name(), "init") && inPkg(f, "shuttermint/keyper/fx") {
					good = true
				}
			}
		}
	}
	return good
}

// entropic: the value depends on time or on the system's random numbers.
func entropic(sl *slicer, v ssa.Value) bool {
	r, cut := false, false
	sl.from(v, func(v ssa.Value) bool {
		if x, ok := v.(*ssa.Call); ok && x.Call.StaticCallee() != nil {
			switch n := x.Call.StaticCallee().RelString(nil); {
			case n == "time.Now" || strings.HasPrefix(n, "crypto/rand."):
				r = true
			case strings.HasPrefix(n, "(time.Time).") && !strings.HasPrefix(n, "(time.Time).Unix") && n != "(time.Time).Nanosecond":
				cut = true
			}
		}
		if x, ok := v.(*ssa.BinOp); ok && (x.Op == token.REM || x.Op == token.QUO || x.Op == token.AND || x.Op == token.SHR) {
			cut = true
		}
		return true
	})
	return r && !cut
}

// ---- actions ----

// actionEffects: the contract method that carries out each kind of action, and when it is expired.
var actionEffects = []struct {
	typ, method string
	batch       bool
	expired     func(f *Facts) bool
	open        func(f *Facts) bool
}{
	{"ExecuteCipherBatch", "ExecutorContractTransactor).ExecuteCipherBatch", true, stepDone(0), stepOpen(0)},
	{"ExecutePlainBatch", "ExecutorContractTransactor).ExecutePlainBatch", true, stepDone(1), stepOpen(1)},
	{"SkipCipherBatch", "ExecutorContractTransactor).SkipCipherExecution", false, stepDone(0), stepOpen(0)},
	{"Accuse", "KeyperSlasherTransactor).Accuse", false,
		func(f *Facts) bool { return f.HasKey(accusations, Fld(Param(0), "HalfStep")) },
		func(f *Facts) bool { return f.NotHas(accusations, Fld(Param(0), "HalfStep")) }},
	{"Appeal", "KeyperSlasherTransactor).Appeal", false,
		func(f *Facts) bool {
			return f.NotHas(accusations, appealed) || f.True(Fld(Idx(accusations, appealed), "Appealed"))
		},
		func(f *Facts) bool {
			return f.HasKey(accusations, appealed) && f.False(Fld(Idx(accusations, appealed), "Appealed"))
		}},
	{"EonKeyBroadcast", "KeyBroadcastContractTransactor).Vote", false, func(*Facts) bool { return false }, func(*Facts) bool { return true }},
	{"SendShuttermintMessage", "", false, func(*Facts) bool { return false }, func(*Facts) bool { return true }},
}

var (
	accusations = Fld(Fld(Param(1), "MainChain"), "Accusations")
	appealed    = Fld(Fld(Param(0), "Authorization"), "HalfStep")
	halfSteps   = Fld(Fld(Param(1), "MainChain"), "NumExecutionHalfSteps")
)

func halfStep(k int) M {
	return func(x *Expr) bool {
		want := polyOf(path(x0(x), "BatchIndex"))
		return polyEq(polyOf(x), want.add(want, 1).add(polyConst(int64(k)), 1))
	}
}

// x0 returns the receiver that occurs in a term.
func x0(x *Expr) *Expr {
	var r *Expr
	walkExpr(x, func(y *Expr) bool {
		if Param(0)(y) {
			r = y
		}
		return r == nil
	})
	if r == nil {
		r = &Expr{Op: "param", S: "$0"}
	}
	return r
}

func stepDone(k int) func(f *Facts) bool {
	return func(f *Facts) bool { return f.Lt(halfStep(k), halfSteps) }
}

func stepOpen(k int) func(f *Facts) bool {
	return func(f *Facts) bool { return f.Le(halfSteps, halfStep(k)) }
}

func checkC32(c *Ctx) {
	e := c.shm()
	for _, x := range actionEffects {
		exp := c.method(e, "shuttermint/keyper/fx."+x.typ, "IsExpired")
		if exp != nil {
			c.returns(e, exp, "expired", func(a *CAlt) bool {
				return isPanic(a.Args[0]) || yesNo(e, a.Facts, a.Args[0], x.expired, x.open)
			}, "the action counts as expired although it is not pointless yet, or the other way round")
		}
		if x.method == "" {
			continue
		}
		send := c.method(e, "shuttermint/keyper/fx."+x.typ, "SendTX")
		if send == nil {
			continue
		}
		n := 0
		the := func(y *Expr) bool { return y != nil && y.Op == "call" && nameEnds(y.S, x.method) }
		c.walk(e, send, nil, func(s *CSite) {
			if s.Kind != "call" || s.Callee == nil || !inPkg(s.Callee, "shuttermint/contract") || !isBinding(s.Callee) || !strings.Contains(fnName(s.Callee), "Transactor)") && !strings.Contains(fnName(s.Callee), "Session)") {
				return
			}
			n++
			c.must(nameEnds(s.Name, x.method), "call", s.where(e.P), "another method of the contracts is called than the one that carries out the action")
			for i, p := range s.Callee.Params {
				if i < 2 {
					continue
				}
				i, name := i, p.Name()
				c.each(s, "arguments", func(a *CAlt) bool {
					v := strip(a.Args[i])
					if Call(".Marshal", Any)(v) {
						v = v.Args[0]
						return v.Op == "field" && Param(0)(v.Args[0])
					}
					return v.Op == "field" && strings.EqualFold(v.S, name) && Param(0)(v.Args[0])
				}, "the argument "+name+" is not the action's own")
			}
			c.each(s, "arguments", func(a *CAlt) bool { return Param(2)(a.Args[1]) && contains(a.Args[0], Param(1)) }, "the transaction does not use the options and contracts handed over")
			if x.batch {
				c.each(s, "gas", func(a *CAlt) bool {
					g := Fld(Param(2), "GasLimit")
					return a.Facts.Eq(g, func(v *Expr) bool { return coversGas(v) }) || !a.Facts.Did(Call("store:GasLimit"))
				}, "the gas allowed does not cover all transactions of the batch")
			} else {
				c.each(s, "gas", func(a *CAlt) bool {
					return a.Facts.Eq(Fld(Param(2), "GasLimit"), func(v *Expr) bool { return v.Op == "const" }) || !a.Facts.Did(Call("store:GasLimit"))
				}, "the gas allowed depends on something unknown")
			}
		})
		c.must(n == 1, "call", fnName(send), fmt.Sprintf("there are %d contract calls instead of one", n))
		c.returns(e, send, "result", func(a *CAlt) bool {
			if isPanic(a.Args[0]) || len(a.Args) != 2 {
				return isPanic(a.Args[0])
			}
			if !a.Facts.Did(the) {
				return nonNilExpr(a.Args[1]) || a.Facts.NonNil(Is(a.Args[1]))
			}
			err := Ext(the, 1)
			if !a.Facts.matchUpTo(a.Args[0], Ext(the, 0)) && !a.Facts.NonNil(err) {
				return false
			}
			if a.Facts.matchUpTo(a.Args[1], err) || Nil(a.Args[1]) && a.Facts.IsNil(err) {
				return true
			}
			return a.Facts.NonNil(err) && (nonNilExpr(a.Args[1]) || contains(a.Args[1], err) && strings.Contains(a.Args[1].S, "errors.Wrap"))
		}, "what is returned is not the transaction sent, or its error is lost or invented")
	}
}

// coversGas: the amount is a fixed one plus the gas limit of every transaction.
func coversGas(v *Expr) bool {
	r := x0(v)
	each := polyOf(path(r, "TransactionGasLimit")).mul(polyOf(&Expr{Op: "len", Args: []*Expr{path(r, "Transactions")}}))
	n, ok := polyOf(v).add(each, -1).constant()
	return ok && n > 0
}
