package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const shapp = "(*shuttermint/app.ShutterApp)."

var (
	appP    = Param(0)
	appCfgs = Fld(appP, "Configs")
	lastCfg = Idx(appCfgs, Bin("-", Len(appCfgs), Num(1)))
	prevCfg = Idx(appCfgs, Bin("-", Len(appCfgs), Num(2)))
	anyCfg  = Idx(appCfgs, Any)
)

// pay matches the payload of a message of the given kind.
func pay(kind string) M {
	return Fld(func(e *Expr) bool {
		return e != nil && e.Op == "ta" && strings.HasSuffix(e.S, "shmsg.Message_"+kind)
	}, kind)
}

func mf(kind, field string) M { return Strip(Fld(pay(kind), field)) }

// wField returns the struct type and the field that a write goes to.
func wField(s *CSite) (owner, name string) {
	if s.W == nil || s.W.Obj == nil {
		return "", ""
	}
	v, ok := s.W.Obj.(*types.Var)
	if !ok {
		return "", s.W.Obj.Name()
	}
	return fieldOwner[v], v.Name()
}

// stateSite reports whether the site writes to memory that outlives the analysed call.
func stateSite(s *CSite) bool {
	switch s.Kind {
	case "store", "mapupdate", "delete":
	default:
		return false
	}
	for _, a := range s.Alts {
		if a.Target != nil && !freshRoot(a.Target) {
			return true
		}
	}
	o, _ := wField(s)
	return strings.HasPrefix(o, "app.")
}

func isEventCall(s *CSite) bool {
	return s.Kind == "call" && nameEnds(s.Name, ".MakeABCIEvent") && len(s.Args) >= 1
}

// senderOf finds the authenticated sender on a path.
func senderOf(a *CAlt) *Expr {
	var best *Expr
	for _, f := range a.Facts.m {
		for _, x := range f.A {
			if y := findExpr(x, isSender); y != nil && (best == nil || y.Key() < best.Key()) {
				best = y
			}
		}
	}
	return best
}

func findExpr(e *Expr, p func(*Expr) bool) *Expr {
	var r *Expr
	walkExpr(e, func(x *Expr) bool {
		if r == nil && p(x) {
			r = x
		}
		return r == nil
	})
	return r
}

// authentic decides whether the path is only taken for a transaction whose sender has been
// recovered from a valid signature over the message that is being processed and whose chain id
// is ours. It returns the first missing condition.
func authentic(a *CAlt, chain M) string {
	snd := senderOf(a)
	if snd == nil {
		return "the sender has not been recovered from the signature"
	}
	return authenticAs(a, snd, chain)
}

func authenticAs(a *CAlt, snd *Expr, chain M) string {
	sig := findExpr(snd, func(x *Expr) bool {
		return Call("crypto.SigToPub", Any, Any)(x) || Call("crypto.Ecrecover", Any, Any)(x)
	})
	if sig == nil {
		return "the sender does not depend on a signature"
	}
	if !a.Facts.IsNil(Ext(Is(sig), 1)) {
		return "the signature may be invalid"
	}
	sl := sig.Args[1]
	if sl.Op != "slice" || !(isSkip(sl.Args[1]) || Num(0)(sl.Args[1])) || !Num(65)(sl.Args[2]) {
		return "the signature is not the first 65 bytes of the transaction"
	}
	body := And(func(e *Expr) bool { return e != nil && e.Op == "slice" }, func(e *Expr) bool {
		return e.Args[0].Key() == sl.Args[0].Key() && Num(65)(e.Args[1]) && isSkip(e.Args[2])
	})
	pre := Global("shmsg.hashPrefix")
	// the digest covers the prefix and the body
	h := sig.Args[0]
	okDigest := false
	switch {
	case Call(".Sum")(h) && len(h.Args) > 0:
		w := h.Args[0]
		okDigest = a.Facts.Did(Call(".Write", Is(w), Sub(pre))) && a.Facts.Did(Call(".Write", Is(w), Sub(body))) ||
			a.Facts.Did(Call(".Write", Is(w), And(Sub(pre), Sub(body))))
	default:
		okDigest = contains(h, pre) && contains(h, body)
	}
	if !okDigest {
		return "the verified digest does not cover both the domain prefix and the message"
	}
	if !a.Facts.Did(Call("proto.Unmarshal", body)) || !a.Facts.IsNil(Call("proto.Unmarshal", body)) {
		return "the processed message is not decoded from the signed bytes"
	}
	if !a.Facts.Eq(Strip(chain), Strip(Fld(Any, "ChainId"))) {
		return "the chain id of the message is not known to be ours"
	}
	return ""
}

func isSkip(e *Expr) bool { return e == nil || e.Op == "skip" || e.Key() == "_" }

// nonceTracked: the nonce of the message has been recorded for the sender in the tracker.
func nonceRecorded(a *CAlt, tracker M) bool {
	snd := senderOf(a)
	if snd == nil {
		return false
	}
	inner := Idx(Fld(tracker, "RandomNonces"), Is(snd))
	nonce := Fld(Any, "RandomNonce")
	return a.Facts.True(Idx(inner, nonce)) || a.Facts.True(Idx(func(e *Expr) bool { return a.Facts.matchUpTo(e, inner) }, nonce)) ||
		a.Facts.HasKey(inner, nonce) || a.Facts.HasKey(func(e *Expr) bool { return a.Facts.matchUpTo(e, inner) }, nonce)
}

func nonceFresh(a *CAlt, tracker M) bool {
	snd := senderOf(a)
	if snd == nil {
		return false
	}
	ns := Fld(tracker, "RandomNonces")
	nonce := Fld(Any, "RandomNonce")
	return a.Facts.NotHas(ns, Is(snd)) || a.Facts.NotHas(Idx(ns, Is(snd)), nonce) ||
		// the sender's set has just been created
		a.Facts.Did(Call("insertnew", ns, Is(snd)))
}

// nonceWasFresh: the nonce has been looked up in the tracker and found unused.
func nonceWasFresh(a *CAlt, tracker M) bool {
	snd := senderOf(a)
	if snd == nil {
		return false
	}
	ns := Fld(tracker, "RandomNonces")
	return nonceFresh(a, tracker) || a.Facts.Did(Call("absent", ns, Is(snd))) || a.Facts.Did(Call("absent", Idx(ns, Is(snd)), Fld(Any, "RandomNonce")))
}

var (
	appTracker   = Fld(appP, "NonceTracker")
	checkState   = Fld(appP, "CheckTxState")
	checkTracker = Fld(checkState, "NonceTracker")
)

// senderOnlyKey: the written key is the sender.
func keyIs(a *CAlt, m M) bool { return len(a.Args) > 0 && a.Facts.matchUpTo(a.Args[0], m) }

// chain returns the functions from the root to the site, innermost first.
func chain(s *CSite, root *ssa.Function) []*ssa.Function {
	fs := []*ssa.Function{s.Fn}
	for i := len(s.Path) - 1; i >= 0; i-- {
		fs = append(fs, s.Path[i].Fn)
	}
	return fs
}

// followedBy decides whether, in some function on the way from the root to the site, every return
// on which trigger has happened also satisfies req. skip excludes returns (e.g. error returns).
func followedBy(e *Engine, s *CSite, trigger M, req func(al *Alt) bool, skip func(al *Alt) bool) (bool, string) {
	why := ""
	for _, fn := range chain(s, nil) {
		sum := e.Summary(fn)
		if sum == nil {
			continue
		}
		ok, n := true, 0
		for _, st := range sum.Sites {
			if st.Kind != "return" {
				continue
			}
			for _, al := range st.Alts {
				if !al.Facts.Did(trigger) {
					continue
				}
				if skip != nil && skip(al) {
					continue
				}
				n++
				if !req(al) {
					ok = false
					if why == "" {
						why = "return at " + e.P.pos(st.In) + fmt.Sprintf(" returning %.900s", argKeys(al.Args))
					}
				}
			}
		}
		if ok && n > 0 {
			return true, ""
		}
	}
	return false, why
}

// errReturn: the returned error (last result) is not nil, or the response code is not 0.
func errReturn(al *Alt) bool {
	if len(al.Args) == 0 {
		return false
	}
	last := al.Args[len(al.Args)-1]
	if f := structFields(last); f != nil {
		if c, ok := f["Code"]; ok {
			return !Num(0)(c)
		}
	}
	if last.Op == "nil" {
		return false
	}
	return nonNil(last) || al.Facts.NonNil(Is(last)) || al.Facts.NonNil(Is(wrapped(last)))
}

func didCall(suffix string, args ...M) M { return Call(suffix, args...) }

func init() {
	register(&Check{ID: "C02", Mods: []string{"shuttermint"},
		Rule: "At every write to the state of the chain application and every creation of an event that is reachable from DeliverTx, the path conditions must imply: the sender was recovered (no error) from the leading 65 bytes over a digest of the domain prefix and the remaining bytes, the processed message was decoded from those same bytes, its chain id equals the application's, and its nonce was unused and has been recorded before anything else is written. Used nonces and the tracker are never removed or replaced.",
		Min:  map[string]int{"authenticated": 12, "nonce": 12, "nonces are kept": 1},
		Run: func(c *Ctx) {
			e := c.shm()
			root := c.Func(e, shapp+"DeliverTx")
			c.walk(e, root, nil, func(s *CSite) {
				if !stateSite(s) && !isEventCall(s) {
					return
				}
				o, n := wField(s)
				isNonce := o == "app.NonceTracker" && n == "RandomNonces" || s.Kind == "mapupdate" && (o == "" && nonceMap(s))
				if o == "" && !isNonce && !isEventCall(s) && allFresh(s) {
					return
				}
				why := ""
				c.each(s, "authenticated", func(a *CAlt) bool {
					why = authentic(a, Fld(appP, "ChainID"))
					return why == ""
				}, "state is changed or an event is emitted although not every condition for an authentic transaction is known to hold")
				if isNonce {
					c.each(s, "nonce", func(a *CAlt) bool { return nonceFresh(a, appTracker) }, "a nonce is recorded although it may have been used")
				} else {
					c.each(s, "nonce", func(a *CAlt) bool { return nonceRecorded(a, appTracker) }, "state is changed or an event is emitted before the nonce of the transaction has been recorded as used")
				}
			})
			// nonces are never forgotten
			bad := 0
			for _, r := range abciRoots(c, e) {
				c.walk(e, r, nil, func(s *CSite) {
					if !stateSite(s) {
						return
					}
					o, n := wField(s)
					for _, a := range s.Alts {
						tgt := a.Target
						if tgt == nil || contains(tgt, TF("app.ShutterApp", "CheckTxState")) {
							continue
						}
						lost := o == "app.ShutterApp" && n == "NonceTracker" ||
							o == "app.NonceTracker" && n == "RandomNonces" && (s.Kind == "store" && !freshRoot(tgt) || s.Kind == "delete") ||
							s.Kind == "mapupdate" && contains(tgt, TF("app.ShutterApp", "NonceTracker")) && len(a.Args) > 1 && Or(K("false"), Nil)(a.Args[1])
						if lost {
							bad++
							c.must(false, "nonces are kept", s.Kind+" at "+s.where(e.P), "recorded nonces are removed or replaced")
							return
						}
					}
				})
			}
			c.must(bad == 0, "nonces are kept", "all ABCI methods", "")
		}})

	register(&Check{ID: "C03", Mods: []string{"shuttermint"},
		Rule: "CheckTx writes only the mempool state; it counts a transaction only on paths where it is authentic, for our chain, its nonce is neither used nor pending, its sender is a member (or no members are known) and the sender's count is below the declared limit; the members are all keypers of all configs; every accepting return has counted the transaction and recorded its nonce; Commit resets counts and pending nonces on every path; every function that changes the list of configs updates the members afterwards.",
		Min:  map[string]int{"mempool writes only": 2, "admission": 2, "accepted means counted": 1, "commit resets": 1, "members follow configs": 1, "members are all keypers": 1},
		Run:  checkC03})

	register(&Check{ID: "C04", Mods: []string{"shuttermint"},
		Rule: "For every construction of a DeliverTx response with a non-zero code, nothing may have been written to the application's state on any path from the entry of DeliverTx except the record of used nonces, and the response carries no events.",
		Min:  map[string]int{"rejected means unchanged": 5},
		Run:  checkC04})

	register(&Check{ID: "C05", Mods: []string{"shuttermint"},
		Rule: "Path conditions at every write to a vote table: the key is the authenticated sender and is an element of the keyper list of the config that decides (the newest config for new configs, the one before it for starting a config, the one active at the batch for an eon start); config votes are not repeated; votes for starting a config name the newest, not yet started config; the recorded candidate index refers to the candidate voted for.",
		Min:  map[string]int{"config vote": 1, "start vote": 1, "eon vote": 1, "vote refers to candidate": 3},
		Run:  checkC05})

	register(&Check{ID: "C06", Mods: []string{"shuttermint"},
		Rule: "Path conditions at every write that registers a DKG message, a check-in or a decryption signature: the sender is a keyper of the config the message refers to, all receivers, accused or accusers are keypers of that config and differ from the sender, the numbers of addresses and values agree, all addresses have the right length.",
		Min:  map[string]int{"sender is a keyper": 6, "peers are other keypers": 3, "lengths agree": 2, "address length": 3},
		Run:  checkC06})

	register(&Check{ID: "C07", Mods: []string{"shuttermint"},
		Rule: "Path conditions at every registration write: the same registration has been looked up and found absent; lists of addresses in a message are checked for duplicates; registrations are never removed or reset by transaction processing.",
		Min:  map[string]int{"absent before": 6, "unique addresses": 4, "never removed": 1},
		Run:  checkC07})

	register(&Check{ID: "C08", Mods: []string{"shuttermint"},
		Rule: "Every write to the list of configs appends one config for which the path conditions imply validity (keypers, 0 < threshold ≤ keypers), a larger config index, a start batch that does not decrease and a candidate with at least the newest config's threshold of votes; votes of both kinds are reset; configs are otherwise never modified except for the started and validators-updated flags.",
		Min:  map[string]int{"append": 1, "valid": 1, "order": 1, "votes": 1, "votes are reset": 2, "configs are immutable": 1, "vote count": 1},
		Run:  checkC08})

	register(&Check{ID: "C09", Mods: []string{"shuttermint"},
		Rule: "Every eon counter write increments by one; every new DKG instance is stored under, and carries, the incremented counter, and starts with empty registrations; accepting a config starts a DKG unless threshold and keypers equal those of the current DKG; an eon start vote starts a DKG exactly when the threshold is reached, clearing the votes; a started DKG is announced with its own eon and the batch voted for, or the config's first batch.",
		Min:  map[string]int{"counter": 1, "instance": 1, "new config starts DKG": 1, "eon threshold": 1, "announced": 1},
		Run:  checkC09})

	register(&Check{ID: "C10", Mods: []string{"shuttermint"},
		Rule: "Path conditions in EndBlock: a config is started only with enough start votes by keypers of the previous config, and where the validators are stored the absence of either write implies that its condition is false; validators are switched only for a started config with enough checked-in keypers, where the count is shown to be exact by induction over the counting loop; the set is computed from the newest config with both flags (every config passed over by the search lacks one); the reported updates are the sorted difference between the old and the new validator set with removed validators at power zero; the stored validators are the new set; every keyper contributes the same power to its own key or to the placeholder.",
		Min:  map[string]int{"start": 1, "switch": 1, "difference": 3, "powers": 2, "reported": 1},
		Run:  checkC10})

	register(&Check{ID: "C11", Mods: []string{"shuttermint"},
		Rule: "Every kind of message in the protocol definition reaches a state write or an event of its own; every event creation uses the authenticated sender and the fields of the message being processed; every accepting response for a publishable message carries the event.",
		Min:  map[string]int{"message kind is handled": 10, "event content": 7, "event is published": 1},
		Run:  checkC11})
}

func isAppend(e *Expr) bool {
	return e != nil && e.Op == "call" && e.S == "append" && len(e.Args) == 2
}

func allFresh(s *CSite) bool {
	for _, a := range s.Alts {
		if a.Target != nil && !freshRoot(a.Target) {
			return false
		}
	}
	return true
}

// nonceMap: the updated map is the sender's set of nonces.
func nonceMap(s *CSite) bool {
	for _, a := range s.Alts {
		if a.Target != nil && (contains(a.Target, TF("app.NonceTracker", "RandomNonces")) ||
			a.Facts.Eq(Is(a.Target), Sub(TF("app.NonceTracker", "RandomNonces")))) {
			return true
		}
	}
	return false
}

// abciRoots returns the methods of the application that tendermint calls.
func abciRoots(c *Ctx, e *Engine) []*ssa.Function {
	var fs []*ssa.Function
	for _, n := range []string{"InitChain", "DeliverTx", "EndBlock", "Commit", "CheckTx"} {
		fs = append(fs, c.Func(e, shapp+n))
	}
	return fs
}

func checkC03(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"CheckTx")
	max := declConst(e, "shuttermint/app", "MaxTxsPerBlock")
	below := func(f *Facts, cnt M) bool {
		if max != nil {
			return exists(exprsIn(f, cnt), func(x *Expr) bool { return f.PolyLt(polyOf(x), polyConst(*max)) })
		}
		for _, k := range f.keys() {
			g := f.m[k]
			if g.Op != "lt" && g.Op != "le" || !cnt(g.A[0]) && !cnt(strip(g.A[0])) {
				continue
			}
			if _, ok := intConst(g.A[1]); ok {
				return true
			}
		}
		return false
	}
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "return" && len(s.Path) == 0 {
			c.each(s, "accepted means counted", func(a *CAlt) bool {
				f := structFields(a.Args[0])
				if f == nil {
					return false
				}
				if !Num(0)(f["Code"]) {
					return f["Code"] != nil && f["Code"].Op == "const"
				}
				return a.Facts.Did(Call("mapupdate:TxCounts", Fld(checkState, "TxCounts"), isSender)) && (nonceRecorded(a, checkTracker))
			}, "a transaction is admitted without having been counted, or with an undetermined code")
			return
		}
		if !stateSite(s) || allFresh(s) && !nonceMap(s) {
			return
		}
		c.each(s, "mempool writes only", func(a *CAlt) bool {
			return contains(a.Target, checkState) || a.Facts.Eq(Is(a.Target), Sub(checkState))
		}, "CheckTx changes state other than the mempool state")
		o, n := wField(s)
		c.each(s, "admission", func(a *CAlt) bool {
			if authentic(a, Fld(appP, "ChainID")) != "" {
				return false
			}
			snd := senderOf(a)
			if !nonceWasFresh(a, appTracker) {
				return false
			}
			mem := Fld(checkState, "Members")
			if !(a.Facts.HasKey(mem, Is(snd)) || a.Facts.Le(Len(mem), Num(0)) || a.Facts.Eq(Len(mem), Num(0)) || a.Facts.IsNil(mem)) {
				return false
			}
			if o == "app.CheckTxState" && n == "TxCounts" {
				cnt := Idx(Fld(checkState, "TxCounts"), Is(snd))
				return below(a.Facts, cnt) && nonceWasFresh(a, checkTracker) && len(a.Args) == 2 && Is(snd)(a.Args[0]) && Bin("+", cnt, Num(1))(a.Args[1])
			}
			return true
		}, "a transaction is admitted although it may not be authentic, may be for another chain or replayed, or its sender may not be a member or have exceeded the limit")
		if n == "RandomNonces" || nonceMap(s) {
			c.each(s, "admission", func(a *CAlt) bool {
				return nonceWasFresh(a, checkTracker)
			}, "a pending nonce is admitted twice")
		}
	})
	// Commit
	commit := c.Func(e, shapp+"Commit")
	c.walk(e, commit, nil, func(s *CSite) {
		if s.Kind != "return" || len(s.Path) > 0 {
			return
		}
		c.each(s, "commit resets", func(a *CAlt) bool {
			return a.Facts.Did(Call("store:TxCounts", Sub(checkState), freshOrNil)) && a.Facts.Did(Call("store:NonceTracker", Sub(checkState)))
		}, "Commit may return without having reset the mempool counters and pending nonces")
	})
	// members
	for _, name := range []string{"DeliverTx", "InitChain", "EndBlock", "Commit"} {
		r := c.Func(e, shapp+name)
		c.walk(e, r, nil, func(s *CSite) {
			o, n := wField(s)
			if s.Kind == "store" && o == "app.ShutterApp" && n == "Configs" {
				ok, why := followedBy(e, s, Call("store:Configs"), func(al *Alt) bool {
					return al.Facts.Did(Call("store:Members"))
				}, errReturn)
				c.must(ok, "members follow configs", "store at "+s.where(e.P), "the set of members allowed to send transactions is not updated after the configs changed: "+why)
			}
			if s.Kind == "store" && o == "app.ShutterApp" && n == "CheckTxState" {
				c.each(s, "members follow configs", func(a *CAlt) bool { return !a.Facts.Did(Call("store:Members")) }, "the mempool state is replaced after its members have been set")
				ok, why := followedBy(e, s, Call("store:CheckTxState"), func(al *Alt) bool {
					return al.Facts.Did(Call("store:Members"))
				}, errReturn)
				c.must(ok, "members follow configs", "store at "+s.where(e.P), "the mempool state is replaced by one without members: "+why)
			}
			if s.Kind == "store" && o == "app.CheckTxState" && n == "Members" {
				ok, why := followedBy(e, s, Call("store:Members"), func(al *Alt) bool { return allMembers(e, al.Facts) }, errReturn)
				c.must(ok, "members are all keypers", "store at "+s.where(e.P), "the keypers of some config may be missing from the members: "+why)
				c.each(s, "members are all keypers", func(a *CAlt) bool { return a.Facts.Did(Call("store:Configs")) || name == "CheckTx" }, "members are computed before the configs change")
			}
			if s.Kind == "mapupdate" && o == "app.CheckTxState" && n == "Members" {
				c.each(s, "members are all keypers", func(a *CAlt) bool { return len(a.Args) == 2 && K("true")(a.Args[1]) }, "a keyper is registered as a non-member")
			}
		})
	}
}

// allMembers: every keyper of every config has been entered into the members.
func allMembers(e *Engine, f *Facts) bool {
	kp := Fld(anyCfg, "Keypers")
	all := f
	entered := func(list M) func(f *Facts) bool {
		return func(f *Facts) bool {
			upd := append(f.dids(Call("mapupdate:Members")), f.dids(func(d *Expr) bool {
				return Call("mapupdate:*")(d) && all.Did(Call("store:Members", Any, Is(d.Args[0])))
			})...)
			return exists(upd, func(d *Expr) bool {
				return len(d.Args) == 3 && K("true")(d.Args[2]) && exists(f.eqs(d.Args[1]), func(x *Expr) bool { return Idx(list, Any)(x) })
			})
		}
	}
	each := f.All(appCfgs, func(g *Facts) bool { return g.All(kp, func(*Facts) bool { return true }) })
	return f.All(appCfgs, func(g *Facts) bool { return g.All(kp, entered(kp)) }) ||
		each && f.All(func(l *Expr) bool { return Nil(l) || gathers(e, l, kp) }, entered(Any)) ||
		f.All(appCfgs, func(*Facts) bool { return true }) && f.All(func(l *Expr) bool { return collects(e, l, kp) }, entered(Any))
}

// collects: all elements of the lists are appended to the local list V in every iteration of a loop.
func collects(e *Engine, V *Expr, list M) bool {
	V = localVar(V)
	if V == nil {
		return false
	}
	empty := func(x *Expr) bool {
		return zeroValue(x) || x.Op == "alloc" && len(x.Fields) == 0 || x.Op == "list" && len(x.Args) == 0 || x.Op == "make"
	}
	in := func(v *Expr, p func(l *Loop) bool) bool {
		for _, fn := range e.P.Functions() {
			if strings.HasPrefix(v.S, shortFn(fn)+".") {
				for _, l := range e.Summary(fn).Loops {
					if p(l) {
						return true
					}
				}
			}
		}
		return false
	}
	var extends func(x *Expr) bool
	extends = func(x *Expr) bool {
		if isAppend(x) && x.Args[0].Key() == V.Key() && list(x.Args[1]) {
			return true
		}
		// one by one
		W := localVar(x)
		return W != nil && W.Key() != V.Key() && in(W, func(l *Loop) bool {
			return inductive(l, W, func(f *Facts, v *Expr) bool { return v.Key() == V.Key() }, func(f *Facts, v *Expr) bool {
				return isAppend(v) && v.Args[0].Key() == W.Key() && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && Idx(list, Any)(v.Args[1].Args[0])
			})
		})
	}
	return in(V, func(l *Loop) bool {
		return inductive(l, V, func(f *Facts, v *Expr) bool { return empty(v) }, func(f *Facts, v *Expr) bool { return extends(v) })
	})
}

// gathers: all elements of a list are appended to V one by one, in a loop that goes on with what earlier ones have appended.
func gathers(e *Engine, V *Expr, list M) bool {
	V = localVar(V)
	if V == nil {
		return false
	}
	name := strings.TrimRight(V.S, "'")
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if inductive(l, V, func(f *Facts, v *Expr) bool {
				w := localVar(v)
				for _, o := range e.Summary(fn).Loops {
					if w != nil && inductive(o, w, func(f *Facts, v *Expr) bool {
						return zeroValue(v) || v.Op == "make" || v.Op == "alloc" && len(v.Fields) == 0 || v.Op == "list" && len(v.Args) == 0
					}, func(f *Facts, v *Expr) bool { return v.Key() == V.Key() }) {
						return true
					}
				}
				return zeroValue(v) || v.Op == "make" || v.Op == "alloc" && len(v.Fields) == 0 || v.Op == "list" && len(v.Args) == 0 || w != nil && strings.TrimRight(w.S, "'") == name
			}, func(f *Facts, v *Expr) bool {
				return isAppend(v) && v.Args[0].Key() == V.Key() && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && Idx(list, Any)(v.Args[1].Args[0])
			}) {
				return true
			}
		}
	}
	return false
}

// declConst returns the value of a declared integer constant, if there is one.
func declConst(e *Engine, pkg, name string) *int64 {
	p := e.P.Pkg(pkg)
	if p == nil {
		return nil
	}
	if k, ok := p.Members[name].(*ssa.NamedConst); ok && k.Value != nil {
		if n, ok := constant.Int64Val(k.Value.Value); ok {
			return &n
		}
	}
	return nil
}

// intConst returns the value of a constant.
func intConst(x *Expr) (int64, bool) {
	x = strip(x)
	if x == nil || x.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(x.S, 10, 64)
	return n, err == nil
}

func freshOrNil(e *Expr) bool { return e != nil && (freshRoot(e) || Nil(e)) }

func checkC04(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "return" || len(s.Args) != 1 || typeBase2(s) != "types.ResponseDeliverTx" {
			return
		}
		c.each(s, "rejected means unchanged", func(a *CAlt) bool {
			f := structFields(a.Args[0])
			if f == nil {
				return true // the result of another function, which is checked itself
			}
			code := f["Code"]
			if code == nil || code.Op != "const" {
				return false
			}
			if code.S == "0" {
				return true
			}
			if ev := f["Events"]; ev != nil && !(ev.Op == "nil" || ev.Op == "list" && len(ev.Args) == 0) {
				return false
			}
			for _, w := range sortedWrites(a.Written) {
				if harmlessWrite(w) {
					continue
				}
				return false
			}
			return true
		}, "a transaction is rejected although the state may have been changed, or with events")
		for _, a := range s.Alts {
			_ = a
		}
	})
}

func typeBase2(s *CSite) string {
	r, ok := s.In.(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return ""
	}
	return typeBase(r.Results[0].Type())
}

// harmlessWrite: local memory, or the record of used nonces.
func harmlessWrite(w *Write) bool {
	if w.Base != nil && contains(w.Base, TF("app.ShutterApp", "NonceTracker")) {
		return true
	}
	if v, ok := w.Obj.(*types.Var); ok {
		o := fieldOwner[v]
		if o == "app.NonceTracker" {
			return true
		}
		if w.Base != nil && freshRoot(w.Base) && !strings.HasPrefix(o, "app.") {
			return true
		}
		// a copy of a batch state
		if o == "app.BatchState" && w.Base != nil && w.Base.Op == "call" {
			return true
		}
		return false
	}
	return w.Base == nil || freshRoot(w.Base)
}

func member(a *CAlt, cfg M, x M) bool { return a.Facts.Member(Fld(cfg, "Keypers"), x) }

func checkC05(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	refers := func(s *CSite, a *CAlt, x M) bool {
		if len(a.Args) < 2 {
			return false
		}
		v := a.Args[1]
		votes := a.Target // Voting.Votes
		_ = votes
		cand := Fld(Any, "Candidates")
		if a.Facts.Eq(Idx(cand, Is(v)), x) || a.Facts.True(Call("reflect.DeepEqual", Idx(cand, Is(v)), x)) || a.Facts.True(Call("reflect.DeepEqual", x, Idx(cand, Is(v)))) {
			return true
		}
		// the candidate has just been appended
		app := func(y *Expr) bool {
			return isAppend(y) && contains(y.Args[1], x)
		}
		if a.Facts.Did(Call("store:Candidates", Any, app)) {
			return strip(v).Op == "bin" && strip(v).S == "-" && Num(1)(strip(v).Args[1]) || strip(v).Op == "len" || strip(v).Op == "const" || strip(v).Op == "bin"
		}
		return false
	}
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "mapupdate" {
			return
		}
		o, n := wField(s)
		switch {
		case o == "app.Voting" && n == "Votes":
			eon := false
			for _, a := range s.Alts {
				if a.Facts.NonNil(pay("EonStartVote")) {
					eon = true
				}
			}
			if !eon {
				c.each(s, "config vote", func(a *CAlt) bool {
					snd := senderOf(a)
					return snd != nil && a.Facts.NonNil(pay("BatchConfig")) && keyIs(a, Is(snd)) && member(a, lastCfg, Is(snd)) &&
						a.Facts.NotHas(Is(a.Target), Is(snd)) && contains(a.Target, Fld(appP, "ConfigVoting"))
				}, "a vote on a new config is counted although its sender may not be a keyper of the newest config or may have voted before")
				c.each(s, "vote refers to candidate", func(a *CAlt) bool {
					return refers(s, a, func(y *Expr) bool {
						f := structFields(y)
						return f != nil && f["ConfigIndex"] != nil && mf("BatchConfig", "ConfigIndex")(f["ConfigIndex"])
					})
				}, "the vote is recorded for a candidate that is not known to be the proposed config")
				return
			}
			c.each(s, "eon vote", func(a *CAlt) bool {
				snd := senderOf(a)
				if snd == nil || !keyIs(a, Is(snd)) {
					return false
				}
				// the config that is active at the batch, from the newest to the oldest
				cfg := configFor(a, mf("EonStartVote", "StartBatchIndex"))
				if cfg == nil || !member(a, Is(cfg), Is(snd)) {
					return false
				}
				tbl := Idx(Fld(appP, "EonStartVotings"), Fld(Is(cfg), "ConfigIndex"))
				return contains(a.Target, tbl) || a.Facts.Eq(tbl, Sub(Is(rootOf(a.Target)))) || a.Facts.Eq(tbl, Sub(Is(a.Target)))
			}, "a vote for an eon start is counted although its sender may not be a keyper of the config that is active at the batch, or in the wrong table")
			c.each(s, "vote refers to candidate", func(a *CAlt) bool {
				return refers(s, a, mf("EonStartVote", "StartBatchIndex"))
			}, "the vote is recorded for a candidate that is not known to be the proposed batch")
		case o == "app.ShutterApp" && n == "StartedVotes":
			c.each(s, "start vote", func(a *CAlt) bool {
				snd := senderOf(a)
				return snd != nil && keyIs(a, Is(snd)) && member(a, prevCfg, Is(snd)) &&
					a.Facts.Eq(Fld(lastCfg, "ConfigIndex"), mf("BatchConfigStarted", "BatchConfigIndex")) &&
					a.Facts.False(Fld(lastCfg, "Started"))
			}, "a vote for starting a config is counted although its sender may not be a keyper of the previous config, or it may not be for the newest, unstarted config")
		}
	})
}

// configFor finds the config that a path has selected for the batch: the newest one that does not start after it.
func configFor(a *CAlt, batch M) *Expr {
	for _, x := range exprsIn(a.Facts, anyCfg) {
		if l, i := elemOf(x); l != nil && latest(a.Facts, appCfgs, l, i, "StartBatchIndex", batch) {
			return x
		}
	}
	return nil
}

var dkgSeen = []struct{ field, kind, peers, vals string }{
	{"PolyEvalsSeen", "PolyEval", "Receivers", "EncryptedEvals"},
	{"PolyCommitmentsSeen", "PolyCommitment", "", ""},
	{"AccusationsSeen", "Accusation", "Accused", ""},
	{"ApologiesSeen", "Apology", "Accusers", "PolyEvals"},
}

func checkC06(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		if s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "Identities" {
			c.each(s, "sender is a keyper", func(a *CAlt) bool {
				snd := senderOf(a)
				return snd != nil && keyIs(a, Is(snd)) && member(a, anyCfg, Is(snd))
			}, "a check-in is registered although its sender may not be a keyper")
		}
		if s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "BatchStates" {
			c.each(s, "sender is a keyper", func(a *CAlt) bool {
				snd := senderOf(a)
				if snd == nil || !keyIs(a, mf("DecryptionSignature", "BatchIndex")) {
					return false
				}
				// keypers of the config that is stored with, or selected for, the batch
				batch := mf("DecryptionSignature", "BatchIndex")
				if a.Facts.Member(Fld(Fld(Idx(Fld(appP, "BatchStates"), batch), "Config"), "Keypers"), Is(snd)) &&
					a.Facts.HasKey(Fld(appP, "BatchStates"), batch) {
					return true
				}
				cfg := configFor(a, batch)
				return cfg != nil && member(a, Is(cfg), Is(snd))
			}, "a decryption signature is registered although its sender may not be a keyper for the batch")
		}
		if o != "app.DKGInstance" || s.Kind != "mapupdate" {
			return
		}
		for _, d := range dkgSeen {
			if d.field != n {
				continue
			}
			inst := Idx(Fld(appP, "DKGMap"), mf(d.kind, "Eon"))
			kp := Fld(Fld(inst, "Config"), "Keypers")
			c.each(s, "sender is a keyper", func(a *CAlt) bool {
				snd := senderOf(a)
				return snd != nil && a.Facts.Member(kp, Is(snd)) && contains(a.Target, inst)
			}, "a DKG message is registered although its sender may not be a keyper of the DKG, or for another DKG")
			if d.peers == "" {
				continue
			}
			c.each(s, "peers are other keypers", func(a *CAlt) bool {
				snd := senderOf(a)
				return snd != nil && a.Facts.All(Any, func(f *Facts) bool {
					elem := Idx(peerList(a, d.kind, d.peers), Any)
					return f.Eq(Idx(kp, Any), elem) && f.Ne(elem, Is(snd))
				})
			}, "a DKG message is registered although it may name addresses that are no keypers, or the sender itself")
			c.each(s, "address length", func(a *CAlt) bool {
				return a.Facts.All(mf(d.kind, d.peers), func(f *Facts) bool {
					return f.Eq(Len(Idx(mf(d.kind, d.peers), Any)), Num(20))
				})
			}, "addresses in a DKG message are not known to have the right length")
			if d.vals != "" {
				c.each(s, "lengths agree", func(a *CAlt) bool {
					return a.Facts.Eq(Len(mf(d.kind, d.peers)), Len(mf(d.kind, d.vals)))
				}, "a DKG message is registered although the numbers of addresses and values may differ")
			}
		}
	})
}

// peerList matches the parsed address list of a message: the message's list, or a list built from it.
func peerList(a *CAlt, kind, peers string) M {
	return func(e *Expr) bool {
		return e != nil && (mf(kind, peers)(e) || e.Op == "phi" || e.Op == "opaque" || isAppend(e) || e.Op == "alloc" || e.Op == "make")
	}
}

func checkC07(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	uniq := func(a *CAlt, list M) bool {
		return a.Facts.All(list, func(f *Facts) bool {
			return f.Did(Call("insertnew", Any, Sub(Idx(list, Any))))
		})
	}
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		switch {
		case s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "Identities":
			c.each(s, "absent before", func(a *CAlt) bool {
				return len(a.Args) > 0 && a.Facts.NotHas(Fld(appP, "Identities"), Is(a.Args[0]))
			}, "a check-in may replace an earlier one")
		case s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "BatchStates":
			c.each(s, "absent before", func(a *CAlt) bool {
				return noSigOf(a) || a.Facts.Did(Call("store:DecryptionSignatures", Any, isAppend))
			}, "a keyper may register more than one decryption signature for a batch")
		case s.Kind == "store" && o == "app.BatchState" && n == "DecryptionSignatures":
			c.each(s, "absent before", noSigOf, "a keyper may register more than one decryption signature for a batch")
		case s.Kind == "mapupdate" && o == "app.DKGInstance":
			for _, d := range dkgSeen {
				if d.field != n {
					continue
				}
				inst := Idx(Fld(appP, "DKGMap"), mf(d.kind, "Eon"))
				set := Fld(inst, n)
				if d.kind == "PolyEval" {
					c.each(s, "absent before", func(a *CAlt) bool {
						snd := senderOf(a)
						if snd == nil || len(a.Args) == 0 {
							return false
						}
						k := structFields(a.Args[0])
						if k == nil || k["Sender"] == nil || !Is(snd)(k["Sender"]) || k["Receiver"] == nil || k["Receiver"].Op != "index" {
							return false
						}
						return a.Facts.NotHas(set, Is(a.Args[0])) || a.Facts.All(Any, func(f *Facts) bool {
							return f.Did(Call("absent", set, func(x *Expr) bool {
								g := structFields(x)
								return g != nil && g["Sender"] != nil && Is(snd)(g["Sender"]) && g["Receiver"] != nil && g["Receiver"].Op == "index" &&
									g["Receiver"].Args[0].Key() == k["Receiver"].Args[0].Key()
							}))
						})
					}, "an evaluation may be registered twice for the same sender and receiver")
				} else {
					c.each(s, "absent before", func(a *CAlt) bool {
						snd := senderOf(a)
						return snd != nil && keyIs(a, Is(snd)) && a.Facts.NotHas(set, Is(snd))
					}, "a DKG message may be registered twice")
				}
				if d.peers != "" {
					c.each(s, "unique addresses", func(a *CAlt) bool { return uniq(a, peerList(a, d.kind, d.peers)) }, "the addresses in a DKG message are not known to be distinct")
				}
			}
		case s.Kind == "mapupdate" && o == "app.Voting" && n == "Votes":
			for _, a := range s.Alts {
				if a.Facts.NonNil(pay("BatchConfig")) {
					c.each(s, "unique addresses", func(a *CAlt) bool { return uniq(a, peerList(a, "BatchConfig", "Keypers")) }, "the keypers of a proposed config are not known to be distinct")
					break
				}
			}
		}
	})
	tables := map[string]bool{
		"app.ShutterApp.Identities": true, "app.ShutterApp.DKGMap": true, "app.ShutterApp.BatchStates": true,
		"app.DKGInstance.PolyEvalsSeen": true, "app.DKGInstance.PolyCommitmentsSeen": true, "app.DKGInstance.AccusationsSeen": true, "app.DKGInstance.ApologiesSeen": true,
	}
	bad := false
	for _, r := range abciRoots(c, e) {
		c.walk(e, r, nil, func(s *CSite) {
			o, n := wField(s)
			if (s.Kind == "store" || s.Kind == "delete") && tables[o+"."+n] && !allFresh(s) {
				bad = true
				c.must(false, "never removed", s.Kind+" at "+s.where(e.P), "registrations in "+o+"."+n+" are removed or replaced")
			}
		})
	}
	c.must(!bad, "never removed", "all ABCI methods", "")
}

// noSigOf: the sender has no decryption signature in the batch state.
func noSigOf(a *CAlt) bool {
	snd := senderOf(a)
	if snd == nil {
		return false
	}
	if n := len(a.Args); n > 0 && a.Args[n-1].Op == "call" && isAppend(a.Args[n-1]) && (Nil(a.Args[n-1].Args[0]) || freshList(a.Args[n-1].Args[0])) {
		// the first signature for this batch
		return a.Facts.NotHas(Fld(appP, "BatchStates"), Or(mf("DecryptionSignature", "BatchIndex"), Strip(mf("DecryptionSignature", "BatchIndex"))))
	}
	return a.Facts.All(Fld(Any, "DecryptionSignatures"), func(f *Facts) bool {
		return f.Ne(Fld(Any, "Sender"), Is(snd))
	})
}

// appended returns the single element appended to the field's old value.
func appended(s *CSite, a *CAlt, field M) *Expr {
	if len(a.Args) == 0 {
		return nil
	}
	v := a.Args[len(a.Args)-1]
	if !isAppend(v) || !field(v.Args[0]) {
		return nil
	}
	l := v.Args[1]
	if l.Op == "list" && len(l.Args) == 1 {
		return l.Args[0]
	}
	return nil
}

// flds returns a lookup of the fields of a value.
func fldOf(x *Expr, name string) M {
	if f := structFields(x); f != nil && f[name] != nil {
		return Strip(Is(strip(f[name])))
	}
	return Fld(Is(x), name)
}

func checkC08(c *Ctx) {
	e := c.shm()
	for _, name := range []string{"DeliverTx", "EndBlock", "Commit", "CheckTx"} {
		r := c.Func(e, shapp+name)
		c.walk(e, r, nil, func(s *CSite) {
			o, n := wField(s)
			if !stateSite(s) {
				return
			}
			if o == "shutterevents.BatchConfig" && !allFresh(s) {
				c.must(n == "Started" || n == "ValidatorsUpdated", "configs are immutable", s.Kind+" at "+s.where(e.P), "field "+n+" of an accepted config is changed")
				if s.Kind == "store" && (n == "Started" || n == "ValidatorsUpdated") {
					c.each(s, "configs are immutable", func(a *CAlt) bool { return name == "EndBlock" && len(a.Args) > 0 && K("true")(a.Args[len(a.Args)-1]) }, "an accepted config is changed outside of the block end, or a flag is reset")
				}
			}
			if o == "app.ShutterApp" && n == "Configs" {
				if s.Kind != "store" {
					c.must(false, "append", s.Kind+" at "+s.where(e.P), "the list of configs is changed in place")
					return
				}
				c.each(s, "append", func(a *CAlt) bool { return appended(s, a, appCfgs) != nil }, "the list of configs is changed other than by appending one config")
				c.each(s, "valid", func(a *CAlt) bool {
					x := appended(s, a, appCfgs)
					if x == nil {
						return false
					}
					kp, th := fldOf(x, "Keypers"), fldOf(x, "Threshold")
					return a.Facts.Ne(Len(kp), Num(0)) && a.Facts.Ne(th, Num(0)) && a.Facts.Le(th, Len(kp)) ||
						a.Facts.Lt(Num(0), Len(kp)) && a.Facts.Lt(Num(0), th) && a.Facts.Le(th, Len(kp)) ||
						a.Facts.Ne(th, Num(0)) && a.Facts.Le(th, Len(kp)) || a.Facts.Lt(Num(0), th) && a.Facts.Le(th, Len(kp))
				}, "a config is accepted although its threshold may be zero or larger than its number of keypers")
				c.each(s, "order", func(a *CAlt) bool {
					x := appended(s, a, appCfgs)
					return x != nil && a.Facts.Lt(Strip(Fld(lastCfg, "ConfigIndex")), fldOf(x, "ConfigIndex")) && a.Facts.Le(Strip(Fld(lastCfg, "StartBatchIndex")), fldOf(x, "StartBatchIndex"))
				}, "a config is accepted although its index may not be larger than, or its start may be before that of the newest config")
				c.each(s, "votes", func(a *CAlt) bool {
					return a.Facts.Le(Strip(Fld(lastCfg, "Threshold")), countExpr) && a.Facts.Did(Call("mapupdate:Votes", Any, isSender))
				}, "a config is accepted although it may not have the votes of a threshold of keypers")
				for _, f := range []string{"ConfigVoting", "StartedVotes"} {
					f := f
					ok, why := followedBy(e, s, Call("store:Configs"), func(al *Alt) bool {
						return al.Facts.Did(Call("store:"+f, Any, freshOrNil))
					}, errReturn)
					c.must(ok, "votes are reset", f+" after store at "+s.where(e.P), "votes are not reset after a config was accepted: "+why)
				}
			}
			// counting of votes
			if s.Kind == "mapupdate" && allFresh(s) && s.Fn != nil && inPkg(s.Fn, "shuttermint/app") && isVoteCount(s) {
				c.each(s, "vote count", func(a *CAlt) bool {
					return Bin("+", Idx(Is(a.Target), Is(a.Args[0])), Num(1))(a.Args[1]) && a.Args[0].Op == "index" && TF("app.Voting", "Votes")(a.Args[0].Args[0])
				}, "votes are not counted by one per vote for the candidate voted for")
			}
		})
	}
	// vote counting is also reached without state: look at the functions that read votes
	root := c.Func(e, shapp+"DeliverTx")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "mapupdate" && allFresh(s) && isVoteCount(s) {
			c.each(s, "vote count", func(a *CAlt) bool {
				return Bin("+", Idx(Is(a.Target), Is(a.Args[0])), Num(1))(a.Args[1]) && a.Args[0].Op == "index" && TF("app.Voting", "Votes")(a.Args[0].Args[0])
			}, "votes are not counted by one per vote for the candidate voted for")
		}
	})
}

// isVoteCount: an int per candidate index, keyed by a vote.
func isVoteCount(s *CSite) bool {
	for _, a := range s.Alts {
		if len(a.Args) == 2 && contains(a.Args[0], TF("app.Voting", "Votes")) && a.Target.T != nil {
			return true
		}
		if len(a.Args) == 2 && contains(a.Args[0], TF("app.Voting", "Votes")) {
			return true
		}
	}
	return false
}

// countExpr matches the number of votes of a candidate.
func countExpr(e *Expr) bool {
	e = strip(e)
	if Bin("+", countExpr, Num(1))(e) { // just incremented
		return true
	}
	return e.Op == "index" && freshRoot(e.Args[0]) || e.Op == "phi" || e.Op == "opaque"
}

func checkC09(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	ctr := Fld(appP, "EONCounter")
	newCtr := Or(ctr, Bin("+", ctr, Num(1)))
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		switch {
		case s.Kind == "store" && o == "app.ShutterApp" && n == "EONCounter":
			c.each(s, "counter", func(a *CAlt) bool { return len(a.Args) > 0 && Bin("+", ctr, Num(1))(a.Args[len(a.Args)-1]) }, "the eon counter is not incremented by one")
			ok, why := followedBy(e, s, Call("store:EONCounter"), func(al *Alt) bool { return al.Facts.Did(Call("mapupdate:DKGMap")) }, nil)
			c.must(ok, "counter", "use of the counter stored at "+s.where(e.P), "an eon is skipped: "+why)
		case s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "DKGMap":
			c.each(s, "instance", func(a *CAlt) bool {
				f := structFields(a.Args[1])
				if f == nil || f["Eon"] == nil || f["Eon"].Key() != a.Args[0].Key() {
					return false
				}
				// the counter has been incremented before, or the incremented value is used
				if ctr(a.Args[0]) && !a.Facts.Did(Call("store:EONCounter")) {
					return false
				}
				if !ctr(a.Args[0]) && !(Bin("+", ctr, Num(1))(a.Args[0])) {
					return false
				}
				for _, d := range dkgSeen {
					if x := f[d.field]; x == nil || !freshRoot(x) {
						return false
					}
				}
				return true
			}, "a DKG instance is not stored under its own, newly assigned eon, or does not start empty")
			_ = newCtr
			ok, why := followedBy(e, s, Call("mapupdate:DKGMap"), func(al *Alt) bool {
				return respHasEvent(al, "EonStarted", func(ev abciEvent) bool {
					eon, batch := ev.attr("Eon"), ev.attr("BatchIndex")
					if eon == nil || batch == nil || !contains(eon, ctr) {
						return false
					}
					if al.Facts.Did(Call("delete:EonStartVotings")) { // the batch voted for
						return contains(batch, Idx(Fld(Any, "Candidates"), Any))
					}
					return contains(batch, Or(Fld(Any, "StartBatchIndex"), Call("GetStartBatchIndex")))
				})
			}, func(al *Alt) bool { return errReturn(al) })
			c.must(ok, "announced", "mapupdate at "+s.where(e.P), "a DKG is started but not announced with its eon and the batch it is for: "+why)
		case s.Kind == "delete" && o == "app.ShutterApp" && n == "EonStartVotings":
			c.each(s, "eon threshold", func(a *CAlt) bool {
				return a.Facts.Le(Strip(Fld(anyCfg, "Threshold")), countExpr)
			}, "eon start votes are cleared although the threshold may not have been reached")
			ok, why := followedBy(e, s, Call("delete:EonStartVotings"), func(al *Alt) bool { return al.Facts.Did(Call("mapupdate:DKGMap")) }, nil)
			c.must(ok, "eon threshold", "DKG after delete at "+s.where(e.P), "eon start votes are cleared without starting a DKG: "+why)
		case s.Kind == "store" && o == "app.ShutterApp" && n == "Configs":
			ok, why := followedBy(e, s, Call("store:Configs"), func(al *Alt) bool {
				if al.Facts.Did(Call("mapupdate:DKGMap")) {
					return true
				}
				cur := Fld(Idx(Fld(appP, "DKGMap"), ctr), "Config")
				ck := Fld(cur, "Keypers")
				return e.Implies(al.Facts, func(f *Facts) bool {
					th := false
					for _, x := range exprsIn(f, Strip(Fld(cur, "Threshold"))) {
						for _, y := range f.eqs(x) {
							th = th || !contains(y, Fld(appP, "DKGMap")) && strip(y).Op != "const"
						}
					}
					other := func(y *Expr) bool { return !contains(y, Fld(appP, "DKGMap")) }
					same := f.True(Call("reflect.DeepEqual", ck, other)) || f.True(Call("reflect.DeepEqual", other, ck)) ||
						f.Eq(Len(ck), Len(other)) && f.All(Or(ck, other), func(g *Facts) bool { return g.Eq(Idx(ck, Any), Idx(other, Any)) })
					return th && same
				})
			}, errReturn)
			c.must(ok, "new config starts DKG", "store at "+s.where(e.P), "a config that differs from the config of the current DKG is accepted without starting a DKG: "+why)
		}
	})
	// a DKG for an eon start vote needs a threshold of votes, one for a new config needs the config to be accepted
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		if s.Kind == "mapupdate" && o == "app.ShutterApp" && n == "DKGMap" {
			c.each(s, "eon threshold", func(a *CAlt) bool {
				if a.Facts.Did(Call("store:Configs")) {
					return true
				}
				f := structFields(a.Args[1])
				if f == nil || f["Config"] == nil {
					return false
				}
				return a.Facts.Le(Strip(Fld(Is(f["Config"]), "Threshold")), countExpr)
			}, "a DKG is started although neither a config was accepted nor a threshold of votes was reached")
			ok, why := followedBy(e, s, Call("mapupdate:DKGMap"), func(al *Alt) bool {
				return al.Facts.Did(Call("delete:EonStartVotings")) || al.Facts.Did(Call("store:Configs"))
			}, nil)
			c.must(ok, "eon threshold", "votes after mapupdate at "+s.where(e.P), "a DKG is started and the eon start votes are kept: "+why)
		}
	})
}

// abciEvent is an event as it is constructed for a response.
type abciEvent struct {
	typ  string
	attr func(name string) *Expr
}

// eventsIn lists the events constructed in an expression.
func eventsIn(x *Expr) []abciEvent {
	var r []abciEvent
	walkExpr(x, func(e *Expr) bool {
		f := structFields(e)
		if f != nil && f["Type"] != nil && f["Attributes"] != nil && strings.Contains(f["Type"].S, "evtype.") {
			attrs := f["Attributes"]
			r = append(r, abciEvent{strings.TrimPrefix(f["Type"].S[strings.LastIndex(f["Type"].S, "evtype."):], "evtype."), func(name string) *Expr {
				if attrs.Op != "list" {
					return attrs
				}
				for _, a := range attrs.Args {
					g := structFields(a)
					if g != nil && g["Key"] != nil && strings.Trim(strip(g["Key"]).S, "\"") == name {
						return g["Value"]
					}
					if a.Op == "call" && len(a.Args) == 2 && strings.Trim(strip(a.Args[0]).S, "\"") == name {
						return a.Args[1]
					}
				}
				return nil
			}})
			return true
		}
		if e.Op == "call" && nameEnds(e.S, ".MakeABCIEvent") && len(e.Args) > 0 {
			typ := ""
			if e.Fn != nil && e.Fn.Signature.Recv() != nil {
				typ = strings.TrimPrefix(typeBase(e.Fn.Signature.Recv().Type()), "shutterevents.")
			}
			arg := e.Args[0]
			r = append(r, abciEvent{typ, func(name string) *Expr {
				if g := structFields(arg); g != nil {
					return g[name]
				}
				return nil
			}})
		}
		return true
	})
	return r
}

// respEvents lists the events of a response.
func respEvents(x *Expr) []abciEvent {
	f := structFields(x)
	if f == nil || f["Events"] == nil {
		return nil
	}
	return eventsIn(f["Events"])
}

// respHasEvent: the returned response contains the event.
func respHasEvent(al *Alt, typ string, ok func(abciEvent) bool) bool {
	if len(al.Args) == 0 {
		return false
	}
	for _, ev := range respEvents(al.Args[len(al.Args)-1]) {
		if ev.typ == typ && (ok == nil || ok(ev)) {
			return true
		}
	}
	return false
}

func checkC10(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"EndBlock")
	vals := Fld(appP, "Validators")
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		switch {
		case s.Kind == "store" && o == "shutterevents.BatchConfig" && n == "Started":
			c.each(s, "start", func(a *CAlt) bool {
				votes := Strip(Len(Fld(appP, "StartedVotes")))
				return lastCfg(baseOf(a.Target)) && a.Facts.Le(Strip(Fld(prevCfg, "Threshold")), votes)
			}, "a config is started although fewer than a threshold of keypers of the previous config may have voted for it")
		case s.Kind == "store" && o == "shutterevents.BatchConfig" && n == "ValidatorsUpdated":
			c.each(s, "switch", func(a *CAlt) bool {
				cfg := baseOf(a.Target)
				if !lastCfg(cfg) || !a.Facts.True(Fld(Is(cfg), "Started")) {
					return false
				}
				for _, x := range atLeast(a.Facts, Strip(Fld(Is(cfg), "Threshold"))) {
					if checkedIn(e, a.Facts, x, Fld(Is(cfg), "Keypers")) {
						return true
					}
				}
				return false
			}, "the validators are switched to a config that may not be started or may have too few checked-in keypers")
		case s.Kind == "return" && len(s.Path) == 0:
			c.each(s, "reported", func(a *CAlt) bool {
				f := structFields(a.Args[0])
				if f == nil {
					return false
				}
				if !a.Facts.Did(Call("store:Validators")) {
					return false
				}
				u := f["ValidatorUpdates"]
				dev := a.Facts.True(Fld(appP, "DevMode"))
				if u != nil && u.Op != "nil" && !(a.Facts.Did(Call("app.DiffPowermaps", vals)) && a.Facts.Did(Call("Powermap).ValidatorUpdates"))) {
					return false
				}
				if u == nil || u.Op == "nil" {
					return dev
				}
				return !dev
			}, "EndBlock does not report the validator updates, or reports them in developer mode")
		}
	})
	// power maps
	pm := func(fn string) *ssa.Function { return c.Func(e, fn) }
	diff := pm("shuttermint/app.DiffPowermaps")
	nDiff := 0
	c.walk(e, diff, nil, func(s *CSite) {
		if s.Kind != "mapupdate" {
			return
		}
		nDiff++
		c.each(s, "difference", func(a *CAlt) bool {
			k, v := a.Args[0], a.Args[1]
			if Num(0)(v) {
				return a.Facts.NotHas(Param(1), Is(k)) && a.Facts.HasKey(Param(0), Is(k))
			}
			return Idx(Param(1), Is(k))(v) || a.Facts.matchUpTo(v, Idx(Param(1), Is(k)))
		}, "the difference of two validator sets contains a power that is neither the new power nor zero for a removed validator")
	})
	c.must(nDiff >= 2, "difference", "DiffPowermaps", "removed or changed validators are not recorded")
	put := func(f *Facts, k *Expr, v M) bool {
		return f.Did(func(d *Expr) bool {
			return d.Op == "call" && strings.HasPrefix(d.S, "mapupdate:") && len(d.Args) == 3 && (d.Args[1].Key() == k.Key() || f.Eq(Is(d.Args[1]), Is(k))) && (v(d.Args[2]) || f.Eq(Is(d.Args[2]), v))
		})
	}
	c.must(c.visits(e, diff, Param(0), func(f *Facts, k *Expr) bool {
		return f.HasKey(Param(1), Is(k)) || put(f, k, Num(0))
	}), "difference", "removed validators", "a validator that is not in the new set may not be recorded as removed")
	c.must(c.visits(e, diff, Param(1), func(f *Facts, k *Expr) bool {
		o, n := Idx(Param(0), Is(k)), Idx(Param(1), Is(k))
		return f.Eq(o, n) || put(f, k, n)
	}), "difference", "changed validators", "a validator whose power differs may not be recorded with its new power")
	c.returns(e, diff, "difference", func(a *CAlt) bool {
		return a.Facts.All(Param(0), func(*Facts) bool { return true }) && a.Facts.All(Param(1), func(*Facts) bool { return true })
	}, "not all validators are compared")
	ups := c.Func(e, "(shuttermint/app.Powermap).ValidatorUpdates")
	c.walk(e, ups, nil, func(s *CSite) {
		if s.Kind == "return" && len(s.Path) == 0 {
			c.each(s, "difference", func(a *CAlt) bool {
				return a.Facts.Did(Or(Call("sort.Slice"), Call("sort.SliceStable"), Call("sort.Sort"), Call("slices.SortFunc")))
			}, "the validator updates are not sorted")
			c.each(s, "difference", func(a *CAlt) bool {
				return a.Facts.All(Param(0), func(*Facts) bool { return true })
			}, "not all validators of the difference are reported")
			for _, a := range s.Alts {
				V := localVar(a.Args[0])
				if V == nil {
					continue
				}
				_, _, why := comprehension(e, V, func(*Facts) bool { return false }, func(f *Facts, x *Expr) bool {
					u := structFields(x)
					if u == nil || u["Power"] == nil || u["PubKey"] == nil {
						return false
					}
					for _, p := range f.eqs(u["Power"]) {
						if Idx(Param(0), Any)(p) && contains(u["PubKey"], Is(p.Args[1])) {
							return true
						}
					}
					return false
				})
				c.must(why == "" || why == "the list is not built in a loop", "difference", "list returned by ValidatorUpdates", why)
			}
		}
	})
	powerBlocks := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	// the stored validators are those the updates were computed for
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		if s.Kind == "store" && o == "app.ShutterApp" && n == "Validators" {
			c.each(s, "difference", func(a *CAlt) bool {
				return a.Facts.Did(Call("app.DiffPowermaps", vals, Is(a.Args[len(a.Args)-1]))) || a.Facts.Did(Call("app.DiffPowermaps", vals, Any)) && a.Facts.Did(Call("app.DiffPowermaps", vals, func(x *Expr) bool { return x.Key() == a.Args[len(a.Args)-1].Key() }))
			}, "the stored validators are not the set for which the updates have been computed")
			c.each(s, "start", func(a *CAlt) bool {
				return a.Facts.Did(Call("store:Started")) || a.Facts.True(Fld(lastCfg, "Started")) ||
					a.Facts.PolyLt(polyOf(&Expr{Op: "len", Args: []*Expr{path(&Expr{Op: "param", S: "$0"}, "Configs")}}), polyConst(2)) ||
					a.Facts.Lt(Len(Fld(appP, "StartedVotes")), Strip(Fld(prevCfg, "Threshold")))
			}, "a config is not started although a threshold of keypers of the previous config may have voted for it")
			c.each(s, "switch", func(a *CAlt) bool {
				if a.Facts.Did(Call("store:ValidatorsUpdated")) || a.Facts.True(Fld(lastCfg, "ValidatorsUpdated")) || a.Facts.False(Fld(lastCfg, "Started")) && !a.Facts.Did(Call("store:Started")) {
					return true
				}
				return exists(below(a.Facts, Fld(lastCfg, "Threshold")), func(x *Expr) bool { return checkedIn(e, a.Facts, x, Fld(lastCfg, "Keypers")) })
			}, "the validators are not switched although a threshold of keypers may have checked in")
		}
		if s.Kind == "mapupdate" && powermapSite(s) {
			c.each(s, "powers", func(a *CAlt) bool {
				v := strip(a.Args[1])
				k := a.Args[0]
				if !Bin("+", Idx(Is(a.Target), Is(k)), func(x *Expr) bool { return x.Op == "const" })(v) && !(v.Op == "const" && a.Facts.NotHas(Is(a.Target), Is(k))) {
					return false
				}
				id := Idx(Fld(appP, "Identities"), Any)
				if id(k) {
					return a.Facts.HasKey(Fld(appP, "Identities"), Is(k.Args[1])) && indexOfKeypers(k.Args[1])
				}
				return Global("app.NonExistentValidator")(k) && a.Facts.NotHas(Fld(appP, "Identities"), indexOfKeypers)
			}, "the power of a keyper is not assigned to its own validator key, or to the placeholder if it has not checked in")
			if h := innermostLoop(s.In.Block()); h != nil {
				if powerBlocks[h] == nil {
					powerBlocks[h] = map[*ssa.BasicBlock]bool{}
				}
				powerBlocks[h][s.In.Block()] = true
				c.must(!leavesEarly(s.In), "powers", "loop at "+s.where(e.P), "keypers may get no power")
			}
			c.each(s, "powers", func(a *CAlt) bool {
				ks := []*Expr{findExpr(a.Args[0], indexOfKeypers)}
				if ks[0] == nil { // the placeholder
					ks = nil
					for _, h := range exprsIn(a.Facts, Has(Fld(appP, "Identities"), indexOfKeypers)) {
						if a.Facts.False(Is(h)) {
							ks = append(ks, h.Args[1])
						}
					}
				}
				return exists(ks, func(k *Expr) bool { return newestSwitched(e, a.Facts, k.Args[0].Args[0]) })
			}, "the validators are not computed from the newest config that is started and for which the validators have been switched")
		}
	})
	for h, hit := range powerBlocks {
		c.must(!loopAvoids(h, loopOf(h), hit), "powers", "every keyper in "+fnName(h.Parent()), "a keyper may get no power")
	}
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "return" && len(s.Path) > 0 && len(s.Args) == 1 {
			c.each(s, "switch", func(a *CAlt) bool {
				if !vals(a.Args[0]) {
					return true
				}
				all := false
				for _, k := range a.Facts.keys() {
					g := a.Facts.m[k]
					if g.Op != "forall" {
						continue
					}
					l := g.A[0]
					if l.Op == "part" && len(exprsIn(a.Facts, func(x *Expr) bool { return Idx(appCfgs, Any)(x) && a.Facts.Eq(Is(x), Nil) })) > 0 {
						l = l.Args[0] // what has been looked for is nil
					}
					if !appCfgs(l) {
						continue
					}
					walkFact(g.In, func(x *Expr) {
						all = all || localVar(x) != nil && (passedOver(e, x) || lastSwitched(e, x))
					})
				}
				return all
			}, "the validators are kept although they may have been switched to a config")
		}
	})
	powers := map[string]bool{}
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind == "mapupdate" && powermapSite(s) {
			for _, a := range s.Alts {
				v := strip(a.Args[1])
				if v.Op == "bin" {
					powers[strip(v.Args[1]).Key()] = true
				} else {
					powers[v.Key()] = true
				}
			}
		}
	})
	c.must(len(powers) == 1, "powers", "all keypers", fmt.Sprintf("keypers get different powers: %v", keysOf(powers)))
}

// atLeast returns what is known to be at least the bound.
func atLeast(f *Facts, bound M) []*Expr {
	var r []*Expr
	for _, k := range f.keys() {
		if g := f.m[k]; (g.Op == "le" || g.Op == "lt") && bound(g.A[0]) {
			r = append(r, strip(g.A[1]))
		}
	}
	return r
}

// checkedIn: x is the number of the keypers that have checked in.
func checkedIn(e *Engine, f *Facts, x *Expr, list M) bool {
	if !f.All(list, func(*Facts) bool { return true }) {
		return false
	}
	in := func(f *Facts) bool { return f.HasKey(Fld(Any, "Identities"), Idx(Any, Any)) }
	out := func(f *Facts) bool { return f.NotHas(Fld(Any, "Identities"), Idx(Any, Any)) }
	if x.Op == "len" {
		_, _, why := comprehension(e, x.Args[0], out, func(f *Facts, _ *Expr) bool { return in(f) })
		return why == ""
	}
	V := localVar(x)
	if V == nil {
		return false
	}
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if inductive(l, V, func(_ *Facts, v *Expr) bool { return isZero(strip(v)) }, func(f *Facts, v *Expr) bool {
				if v.Key() == V.Key() {
					return e.Implies(f, out)
				}
				return polyEq(polyOf(v), polyOf(V).add(polyConst(1), 1)) && e.Implies(f, in)
			}) {
				return true
			}
		}
	}
	return false
}

// switched: the config is started and the validators have been switched to it.
func switched(f *Facts, cfg M) bool {
	return f.True(Fld(cfg, "Started")) && f.True(Fld(cfg, "ValidatorsUpdated"))
}

func notSwitched(f *Facts, cfg M) bool {
	return f.False(Fld(cfg, "Started")) || f.False(Fld(cfg, "ValidatorsUpdated"))
}

// passedOver: in the loop with this variable only configs are passed over that are not switched to.
func passedOver(e *Engine, i *Expr) bool {
	V := localVar(i)
	if V == nil {
		return false
	}
	ok := false
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			n, good := 0, true
			for _, ed := range l.Edges {
				if !ed.Back || len(loopVars(l, V)) == 0 {
					continue
				}
				n++
				good = good && e.Implies(ed.Facts, func(f *Facts) bool { return notSwitched(f, Idx(Any, Any)) })
			}
			ok = ok || n > 0 && good
		}
	}
	return ok
}

// newestSwitched: cfg is the newest config that is started and for which the validators have been switched.
func newestSwitched(e *Engine, f *Facts, cfg *Expr) bool {
	if cfg.Op == "call" { // what a helper has found
		return exists(exprsIn(f, Idx(appCfgs, Any)), func(x *Expr) bool {
			return findExpr(x, func(x *Expr) bool { return localVar(x) != nil }) != nil && newestSwitched(e, f, x)
		})
	}
	if l, i := elemOf(cfg); l != nil {
		if !appCfgs(l) || !switched(f, Is(cfg)) {
			return false
		}
		if v := findExpr(i, func(x *Expr) bool { return localVar(x) != nil }); v != nil && f.All(appCfgs, func(*Facts) bool { return true }) {
			return lastSwitched(e, v) // the last one found while counting up
		}
		n := polyOf(&Expr{Op: "len", Args: []*Expr{l}})
		return f.All(func(p *Expr) bool {
			if p.Op != "part" || p.Args[0].Key() != l.Key() {
				return false
			}
			if p.S == "down" && !polyEq(polyOf(p.Args[1]), polyOf(i)) || p.S == "up" && !polyEq(polyOf(i), n.add(polyOf(p.Args[1]), -1).add(polyConst(1), -1)) {
				return false
			}
			return findExpr(p.Args[1], func(x *Expr) bool { return passedOver(e, x) }) != nil
		}, func(*Facts) bool { return true })
	}
	return f.All(appCfgs, func(*Facts) bool { return true }) && lastSwitched(e, cfg)
}

// lastSwitched: the loop with this variable, which counts up, remembers the last config that is switched to.
func lastSwitched(e *Engine, v *Expr) bool {
	V := localVar(v)
	if V == nil {
		return false
	}
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if len(l.Edges) == 0 {
				continue
			}
			for k := range l.Edges[0].Vals {
				kept, found := true, false
				for _, ed := range l.Edges {
					v := ed.Vals[k]
					switch {
					case !ed.Back:
					case v == nil:
						kept = false
					case v.Key() == k:
						kept = kept && e.Implies(ed.Facts, func(f *Facts) bool { return notSwitched(f, Idx(Any, Any)) })
					default:
						found = true
						kept = kept && Idx(Any, Any)(v) && e.Implies(ed.Facts, func(f *Facts) bool { return switched(f, Is(v)) })
					}
				}
				if kept && found {
					return true
				}
			}
		}
	}
	return false
}

func walkFact(f *Fact, visit func(x *Expr)) {
	if f == nil {
		return
	}
	for _, a := range f.A {
		walkExpr(a, func(x *Expr) bool { visit(x); return true })
	}
	walkFact(f.In, visit)
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func indexOfKeypers(e *Expr) bool { return Idx(Fld(Any, "Keypers"), Any)(e) }

func powermapSite(s *CSite) bool {
	mu, ok := s.In.(*ssa.MapUpdate)
	if !ok || typeBase(mu.Map.Type()) != "app.Powermap" {
		return false
	}
	// only sets computed from configs
	for _, a := range s.Alts {
		if len(a.Args) == 2 && contains(a.Args[1], func(x *Expr) bool { return x.Op == "param" && x.S == "$1" }) {
			return false
		}
	}
	for _, st := range s.Path {
		if st.Callee != nil && strings.HasSuffix(st.Callee.Name(), "DiffPowermaps") {
			return false
		}
	}
	return true
}

// baseOf strips the last field selection.
func baseOf(e *Expr) *Expr {
	if e != nil && e.Op == "field" {
		return e.Args[0]
	}
	return e
}

// eventSpec: message kind -> event type and attributes (attribute -> field of the message).
var eventSpec = map[string]struct {
	event string
	attrs map[string]string
}{
	"CheckIn":             {"CheckIn", map[string]string{"EncryptionPublicKey": "EncryptionPublicKey"}},
	"DecryptionSignature": {"DecryptionSignature", map[string]string{"BatchIndex": "BatchIndex", "Signature": "Signature"}},
	"PolyEval":            {"PolyEval", map[string]string{"Eon": "Eon", "Receivers": "", "EncryptedEvals": ""}},
	"PolyCommitment":      {"PolyCommitment", map[string]string{"Eon": "Eon"}},
	"Accusation":          {"Accusation", map[string]string{"Eon": "Eon", "Accused": ""}},
	"Apology":             {"Apology", map[string]string{"Eon": "Eon", "Accusers": "", "PolyEvals": ""}},
	"EpochSecretKeyShare": {"EpochSecretKeyShare", map[string]string{"Eon": "Eon", "Epoch": "Epoch", "Share": ""}},
}

func checkC11(c *Ctx) {
	e := c.shm()
	root := c.Func(e, shapp+"DeliverTx")
	handled := map[string]bool{}
	accepted := map[string]bool{}
	kinds := messageKinds(e)
	c.walk(e, root, nil, func(s *CSite) {
		if stateSite(s) {
			o, n := wField(s)
			if !(o == "app.NonceTracker" || n == "RandomNonces") && !allFresh(s) {
				for _, k := range kinds {
					for _, a := range s.Alts {
						if a.Facts.NonNil(pay(k)) {
							handled[k] = true
						}
					}
				}
			}
		}
		if s.Kind != "return" || typeBase2(s) != "types.ResponseDeliverTx" {
			return
		}
		for _, a := range s.Alts {
			f := structFields(a.Args[0])
			if f == nil || f["Code"] == nil || !Num(0)(f["Code"]) {
				continue
			}
			for _, k := range kinds {
				if a.Facts.NonNil(pay(k)) {
					accepted[k] = true
				}
			}
		}
	})
	// the accepting returns of the handlers
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "return" || typeBase2(s) != "types.ResponseDeliverTx" {
			return
		}
		kind := ""
		for k, sp := range eventSpec {
			for _, a := range s.Alts {
				f := structFields(a.Args[0])
				if f != nil && f["Code"] != nil && Num(0)(f["Code"]) && a.Facts.NonNil(pay(k)) {
					kind = k
				}
			}
			_ = sp
		}
		if kind == "" {
			return
		}
		for k, sp := range eventSpec {
			k, sp := k, sp
			some := false
			for _, a := range s.Alts {
				some = some || a.Facts.NonNil(pay(k))
			}
			if !some {
				continue
			}
			why := ""
			c.each(s, "event content", func(a *CAlt) bool {
				f := structFields(a.Args[0])
				if f == nil || f["Code"] == nil || !Num(0)(f["Code"]) || !a.Facts.NonNil(pay(k)) {
					return true
				}
				snd := senderOf(a)
				evs := respEvents(a.Args[0])
				if snd == nil || len(evs) != 1 || evs[0].typ != sp.event {
					why = "there is not exactly one event of the right type"
					return false
				}
				if x := evs[0].attr("Sender"); x == nil || !contains(x, Is(snd)) {
					why = "the sender"
					return false
				}
				for at, fld := range sp.attrs {
					x := evs[0].attr(at)
					if x == nil || fld != "" && !contains(x, mf(k, fld)) {
						why = "attribute " + at
						return false
					}
				}
				return true
			}, "an accepted message is not published with its authenticated sender and content")
			_ = why
		}
	})
	for _, k := range kinds {
		if k == "EpochSecretKeyShare" || k == "PolyEval" {
			// published, or stored by the rules above
			c.must(accepted[k], "message kind is handled", k, "messages of this kind are never accepted")
			continue
		}
		c.must(accepted[k] && handled[k], "message kind is handled", k, "no handler: messages of this kind have no effect")
	}
	// accepted configs
	c.walk(e, root, nil, func(s *CSite) {
		o, n := wField(s)
		if s.Kind == "store" && o == "app.ShutterApp" && n == "Configs" {
			ok, why := followedBy(e, s, Call("store:Configs"), func(al *Alt) bool { return respHasEvent(al, "BatchConfig", nil) }, errReturn)
			c.must(ok, "event is published", "BatchConfig", "an accepted config is not published: "+why)
		}
	})
}

// messageKinds lists the kinds of messages in the protocol definition.
func messageKinds(e *Engine) []string {
	var r []string
	pkg := e.P.Pkg("shuttermint/shmsg")
	if pkg == nil {
		panic(fatal{"unresolved anchor: package shmsg"})
	}
	for n, m := range pkg.Members {
		if _, ok := m.(*ssa.Type); ok && strings.HasPrefix(n, "Message_") {
			r = append(r, strings.TrimPrefix(n, "Message_"))
		}
	}
	sort.Strings(r)
	return r
}
