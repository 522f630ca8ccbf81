package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rules about the keyper's part in the distributed key generation.

const dkgElem = "DKGs"

func init() {
	register(&Check{ID: "C16", Mods: []string{"shuttermint"},
		Rule: "Every commitment, accusation and apology is scheduled with path conditions that imply that the next block lies in the phase of the eon's key generation in which the chain's participants accept it, and what it contains is the result that the state machine of the same eon returned when this phase started. Shares are encrypted with the key registered for the very participant for whom they are meant and are kept until this key is known or the dealing phase has ended. A key generation is started once per eon, in the order of the eons, with the participants and threshold of the keyper config that holds for the eon's first batch and the keyper's own index in it.",
		Min:  map[string]int{"phase window": 3, "own result": 3, "own shares": 1, "shares kept": 1, "start": 1, "start once": 1, "members": 1},
		Run:  checkC16})
	register(&Check{ID: "C17", Mods: []string{"shuttermint"},
		Rule: "Every call that feeds an observed key generation message into a state machine has path conditions implying that the message belongs to the eon of the state machine, that its block lies in the phase to which the message belongs, and that the index passed as sender is the position of the event's sender in the participants of this key generation; the contents are passed on unchanged, list entries with the receiver found at the same position. Before the accusing, apologizing and final phase begin all observed commitments and shares, accusations, and apologies are fed in: in the loops around these calls every iteration makes the call or knows a reason for which the message must be ignored. The ends of the phases are one, two and three times the configured length.",
		Min:  map[string]int{"message window": 4, "message sender": 4, "message contents": 4, "phase order": 3, "messages handled": 4, "phases": 1},
		Run:  checkC17})
	register(&Check{ID: "C18", Mods: []string{"shuttermint"},
		Rule: "A key generation ends only after the apologizing phase. If its result is an error, a restart vote for its first batch is scheduled and no eon key is stored or broadcast; otherwise the result is stored with the eon and participants of this key generation, and the broadcast carries this result's public key, own index and the first batch. On every path after the result was computed exactly one of the two is done.",
		Min:  map[string]int{"finalize": 1, "outcome": 1, "restart vote": 1, "eon key": 1, "broadcast": 1},
		Run:  checkC18})
}

// exprsIn returns the expressions matching m that occur in facts.
func exprsIn(f *Facts, m M) []*Expr {
	var r []*Expr
	seen := map[string]bool{}
	for _, k := range f.keys() {
		x := f.m[k]
		if x.Op == "did" || x.Op == "forall" {
			continue
		}
		for _, a := range x.A {
			walkExpr(a, func(e *Expr) bool {
				if m(e) && !seen[e.Key()] {
					seen[e.Key()] = true
					r = append(r, e)
				}
				return true
			})
		}
	}
	return r
}

func exists(xs []*Expr, p func(*Expr) bool) bool {
	for _, x := range xs {
		if p(x) {
			return true
		}
	}
	return false
}

var dEon = Idx(Fld(dShut, "Eons"), Any)

// eonOf: E is the observed eon of the DKG.
func eonOf(f *Facts, E, D *Expr) bool {
	a, b := Fld(Is(E), "Eon"), Fld(Is(D), "Eon")
	if f.Eq(a, b) {
		return true
	}
	if !f.Le(a, b) {
		return false
	}
	return f.Le(b, a) || len(E.Args) == 2 && searched(E.Args[1], func(x *Expr) bool { return Fld(Is(D), "Eon")(x) || f.Eq(Is(x), b) })
}

// searched: i was found by a binary search for the first element that is not smaller than v; the
// predicate itself is checked by the rule about lookups.
func searched(i *Expr, v M) bool {
	return contains(i, func(x *Expr) bool { return x.Op == "call" && nameEnds(x.S, "sort.Search") })
}

var phaseEnds = map[int][2]string{1: {"Off", "Dealing"}, 2: {"Dealing", "Accusing"}, 3: {"Accusing", "Apologizing"}, 4: {"Apologizing", ""}}

// inPhase: the height lies in the k-th phase of a key generation of the eon.
func inPhase(f *Facts, E, D, height *Expr, k int) bool {
	return phaseBound(f, E, D, height, k, true) && phaseBound(f, E, D, height, k, false)
}

// inPhaseFrom: the height is not before the k-th phase.
func inPhaseFrom(f *Facts, E, D, height *Expr, k int) bool {
	return phaseBound(f, E, D, height, k, true)
}

func phaseBound(f *Facts, E, D, height *Expr, k int, lower bool) bool {
	name := phaseEnds[k][0]
	if !lower {
		name = phaseEnds[k][1]
	}
	if name == "" {
		return true
	}
	for _, owner := range []*Expr{theDecider, D} {
		bound := polyOf(path(owner, "PhaseLength", name)).add(polyOf(sel(E, "StartHeight")), 1)
		if lower && f.PolyLe(bound, polyOf(height)) || !lower && f.PolyLt(polyOf(height), bound) {
			return true
		}
	}
	return false
}

var theDecider = &Expr{Op: "param", S: "$0"}
var nextBlock = binOf("+", path(theDecider, "Shutter", "CurrentBlock"), intExpr(1), nil)

var nextHeight = Bin("+", Fld(dShut, "CurrentBlock"), Num(1))

// ownerDKG returns the key generation whose field an expression denotes.
func ownerDKG(f *Facts, x *Expr, field string) *Expr {
	if x == nil {
		return nil
	}
	var r *Expr
	f.matchUpTo(strip(x), func(y *Expr) bool {
		y = strip(y)
		if Fld(aDKG, field)(y) {
			r = y.Args[0]
			return true
		}
		return false
	})
	return r
}

// eonOwner: the key generation to whose eon x is equal, directly or via the observed eon.
func (r *act) dkg() *Expr { return ownerDKG(r.a.Facts, r.body["Eon"], "Eon") }

func checkC16(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	starts := map[string]string{"PolyCommitment": "StartPhase1Dealing", "Accusation": "StartPhase2Accusing", "Apology": "StartPhase3Apologizing"}
	for i, kind := range []string{"PolyCommitment", "Accusation", "Apology"} {
		k := i + 1
		c.eachAct(as, kind, "phase window", func(r *act) bool {
			D := r.dkg()
			return D != nil && exists(exprsIn(r.a.Facts, dEon), func(E *Expr) bool {
				return eonOf(r.a.Facts, E, D) && inPhase(r.a.Facts, E, D, nextBlock, k)
			})
		}, "the message may be scheduled for a block outside its phase, or for another eon")
		c.eachAct(as, kind, "own result", func(r *act) bool {
			D := r.dkg()
			return D != nil && r.a.Facts.Did(Call(starts[kind], Fld(Is(D), "Pure")))
		}, "the message is not the result of starting this phase of the same key generation")
	}
	c.eachAct(as, "PolyEval", "own result", func(r *act) bool {
		D := r.dkg()
		return D != nil && r.a.Facts.Le(Fld(Fld(Is(D), "Pure"), "Phase"), Num(1))
	}, "shares may be sent after the dealing phase has ended")

	for _, s := range as {
		for _, r := range s.acts {
			if r.kind() == "PolyEval" {
				c.must(stored(e, s.s, "OutgoingPolyEvalMsgs"), "shares kept", "OutgoingPolyEvalMsgs after "+s.s.where(e.P), "shares may be sent again")
				break
			}
		}
	}

	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	out := Fld(aDKG, "OutgoingPolyEvalMsgs")
	c.walk(e, root, nil, func(s *CSite) {
		if len(s.Alts) == 0 {
			return
		}
		switch s.Kind {
		case "call":
			switch {
			case nameEnds(s.Name, "Encrypt") && inPkg(s.Fn, "shuttermint/keyper"):
				c.each(s, "own shares", func(a *CAlt) bool {
					return exists(append(a.Args[:1:1], exprsIn(a.Facts, Idx(Fld(dShut, "KeyperEncryptionKeys"), Any))...), func(key *Expr) bool {
						if !a.Facts.matchUpTo(a.Args[0], Is(key)) || !Idx(Fld(dShut, "KeyperEncryptionKeys"), Any)(key) {
							return false
						}
						recv := key.Args[1]
						return a.Facts.matchUpTo(recv, func(x *Expr) bool {
							if !Idx(Fld(aDKG, "Keypers"), Fld(Idx(out, Any), "Receiver"))(x) {
								return false
							}
							p := strip(x.Args[1]).Args[0]
							return a.Facts.matchUpTo(a.Args[2], Sub(Fld(Is(p), "Eval"))) && Sub(Global("rand.Reader"))(a.Args[1]) &&
								a.Facts.HasKey(Fld(dShut, "KeyperEncryptionKeys"), Is(recv))
						})
					})
				}, "a share is not encrypted with the registered key of the participant for whom it is meant")
			case s.Name == "append" && len(s.Alts[0].Args) == 2 && inPkg(s.Fn, "shuttermint/keyper"):
				// members of a message are translated with the participants of the same key generation
				c.members(s)
				c.each(s, "shares kept", func(a *CAlt) bool {
					v := a.Args[1]
					if v.Op != "list" || len(v.Args) != 1 || !Idx(out, Any)(v.Args[0]) {
						return true
					}
					p := v.Args[0]
					return a.Facts.NotHas(Fld(dShut, "KeyperEncryptionKeys"), a.Facts.upTo(Idx(Fld(aDKG, "Keypers"), Strip(Fld(Is(p), "Receiver")))))
				}, "a share is kept although it can be sent")
			case nameEnds(s.Name, "shmsg.NewAccusation") && inPkg(s.Fn, "shuttermint/keyper"):
				c.namesAll(e, s, 1, "Accused")
			case nameEnds(s.Name, "shmsg.NewApology") && inPkg(s.Fn, "shuttermint/keyper"):
				c.namesAll(e, s, 1, "Accuser")
				c.namesAll(e, s, 2, "Eval")
			}
		case "store":
			w := s.Alts[0].Target
			switch {
			case out(w):
				c.each(s, "shares kept", func(a *CAlt) bool {
					D := a.Target.Args[0]
					v := a.Args[0]
					if a.Facts.matchUpTo(v, Ext(Call("StartPhase1Dealing", Fld(Is(D), "Pure")), 1)) {
						return true
					}
					if Nil(v) || freshList(v) {
						return a.Facts.Lt(Num(1), Fld(Fld(Is(D), "Pure"), "Phase"))
					}
					return true
				}, "shares are dropped although the dealing phase has not ended")
			case Fld(dState, "LastEonStarted")(w):
				c.each(s, "start once", func(a *CAlt) bool {
					return exists([]*Expr{strip(a.Args[0])}, Fld(dEon, "Eon")) && a.Facts.Past().Lt(Fld(dState, "LastEonStarted"), Is(strip(a.Args[0]))) || startedStore(a)
				}, "the newest eon whose key generation was started is not the eon just started, or decreases")
			case Fld(dState, dkgElem)(w):
				c.each(s, "start", func(a *CAlt) bool {
					xs := listed(a.Args[0], Fld(dState, dkgElem))
					if len(xs) == 0 {
						return false
					}
					for _, x := range xs {
						if !startsDKG(a, structFields(x)) {
							return false
						}
					}
					return true
				}, "the key generation is not started with the participants, threshold and own index of the eon's keyper config, or the eon was started before")
				ok, why := followedBy(e, s, Call("store:"+dkgElem), func(al *Alt) bool { return al.Facts.Did(Call("store:LastEonStarted")) }, nil)
				if !ok {
					ok = loopRemembers(e, s) || remembered(s)
				}
				c.must(ok, "start once", "LastEonStarted after "+s.where(e.P), "starting a key generation is not remembered: "+why)
			}
		}
	})
	c.keptShares(e)
}

func freshList(e *Expr) bool {
	return e != nil && (e.Op == "list" && len(e.Args) == 0 || e.Op == "const" && e.S == "zero")
}

// startedStore: the stored value is the eon that is known to be newer (via a copy).
func startedStore(a *CAlt) bool {
	v := strip(a.Args[0])
	return a.Facts.matchUpTo(v, Fld(dEon, "Eon")) && a.Facts.Past().Lt(Fld(dState, "LastEonStarted"), Is(v))
}

// remembered: the eons whose key generations are started here were stored as the newest before.
func remembered(s *CSite) bool {
	for _, a := range s.Alts {
		for _, x := range listed(a.Args[0], Fld(dState, dkgElem)) {
			d := structFields(x)
			if d == nil || d["Eon"] == nil || !a.Facts.Did(Call("store:LastEonStarted", Any, Strip(Is(strip(d["Eon"]))))) {
				return false
			}
		}
	}
	return len(s.Alts) > 0
}

// loopRemembers: the append and the store are made in the same iteration of a loop.
func loopRemembers(e *Engine, s *CSite) bool {
	for _, fn := range chain(s, nil) {
		sum := e.Summary(fn)
		if sum == nil {
			continue
		}
		for _, st := range sum.Sites {
			if st.Kind != "store" || len(st.Alts) == 0 || st.Alts[0].Target == nil || st.Alts[0].Target.S != "LastEonStarted" {
				continue
			}
			// the store must be executed whenever the start was attempted
			for _, q := range sum.Sites {
				if q.Kind != "call" && q.Kind != "store" || q.In == st.In || q.In.Parent() != st.In.Parent() {
					continue
				}
				if starts := q.Kind == "store" && len(q.Alts) > 0 && q.Alts[0].Target != nil && q.Alts[0].Target.S == dkgElem || q.Kind == "call" && writesField(e, q, dkgElem); starts {
					if st.In.Block() == q.In.Block() && before(q.In, st.In) || mustPass(q.In, st.In) {
						return true
					}
				}
			}
		}
	}
	return false
}

func writesField(e *Engine, s *Site, field string) bool {
	ci, ok := s.In.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	if f == nil || !isSource(f) {
		return false
	}
	sum := e.Summary(f)
	if sum == nil {
		return false
	}
	for _, o := range sum.Outs {
		if o.Facts.Did(Call("store:" + field)) {
			return true
		}
	}
	return false
}

// mustPass: every path from a to a return or back to a passes b.
func mustPass(a, b ssa.Instruction) bool { return follows(a, b, false) }

// follows: b is executed on every path from a before the function returns; unless again is set, before a is executed again.
func follows(a, b ssa.Instruction, again bool) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && before(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var ok func(x *ssa.BasicBlock) bool
	ok = func(x *ssa.BasicBlock) bool {
		if x == b.Block() {
			return true
		}
		if seen[x] || endsInPanic(x) {
			return true
		}
		seen[x] = true
		if x == a.Block() && !again || len(x.Succs) == 0 {
			return false
		}
		for _, y := range x.Succs {
			if !ok(y) {
				return false
			}
		}
		return true
	}
	for _, y := range a.Block().Succs {
		if !ok(y) {
			return false
		}
	}
	return true
}

func startsDKG(a *CAlt, d map[string]*Expr) bool {
	if d == nil {
		return false
	}
	f := a.Facts.Past()
	eon := d["Eon"]
	if eon == nil {
		return false
	}
	return f.matchUpTo(strip(eon), func(x *Expr) bool {
		if !Fld(dEon, "Eon")(x) {
			return false
		}
		E := x.Args[0]
		first := Fld(Fld(Is(E), "StartEvent"), "BatchIndex")
		if !f.Lt(Fld(dState, "LastEonStarted"), Is(x)) || !f.matchUpTo(d["StartBatchIndex"], Strip(first)) {
			return false
		}
		kp := d["Keypers"]
		if kp == nil || !Fld(Any, "Keypers")(kp) {
			return false
		}
		cfg := kp.Args[0]
		if !Call("FindBatchConfigByBatchIndex", Any, Strip(first))(cfg) {
			return false
		}
		pure := d["Pure"]
		return pure != nil && contains(pure, func(y *Expr) bool {
			return y.Op == "call" && nameEnds(y.S, "NewPureDKG") && len(y.Args) == 4 &&
				f.matchUpTo(y.Args[0], Is(x)) && Strip(Len(Is(kp)))(y.Args[1]) && Strip(Fld(Is(cfg), "Threshold"))(y.Args[2]) &&
				f.Eq(Idx(Is(kp), Strip(Is(strip(y.Args[3])))), self)
		})
	})
}

// members: entries of lists of addresses are translated with the participants of the key
// generation from the corresponding part of the result.
func (c *Ctx) members(s *CSite) {
	interesting := false
	for _, a := range s.Alts {
		if v := a.Args[1]; v.Op == "list" && len(v.Args) == 1 && Idx(Fld(aDKG, "Keypers"), Any)(v.Args[0]) {
			interesting = true
		}
	}
	if !interesting {
		return
	}
	c.each(s, "members", func(a *CAlt) bool {
		v := a.Args[1]
		if v.Op != "list" || len(v.Args) != 1 {
			return false
		}
		x := v.Args[0]
		if !Idx(Fld(aDKG, "Keypers"), Any)(x) {
			return false
		}
		D, i := x.Args[0].Args[0], strip(x.Args[1])
		pure := Fld(Is(D), "Pure")
		return Fld(Idx(Call("StartPhase2Accusing", pure), Any), "Accused")(i) ||
			Fld(Idx(Call("StartPhase3Apologizing", pure), Any), "Accuser")(i) ||
			Fld(Idx(Fld(Is(D), "OutgoingPolyEvalMsgs"), Any), "Receiver")(i)
	}, "the message names a participant at another position than the one computed")
}

// namesAll: a list in a message that is built in a loop has an entry for every element.
func (c *Ctx) namesAll(e *Engine, s *CSite, arg int, field string) {
	for _, a := range s.Alts {
		if len(a.Args) <= arg {
			continue
		}
		l, _, why := comprehension(e, a.Args[arg], func(*Facts) bool { return false }, func(f *Facts, x *Expr) bool {
			y := Strip(Fld(Idx(Any, Any), field))
			return f.matchUpTo(x, Or(y, Idx(Fld(Any, "Keypers"), y)))
		})
		if why == "the list is not built in a loop" {
			continue
		}
		ok := c.must(why == "", "members", field+" in "+s.where(e.P), why)
		if ok {
			c.must(!leavesLoop(l.Head, l.Body, nil), "members", field+" in "+s.where(e.P), "not all of them are named")
		}
	}
}

// keptShares: in the loop over the outgoing shares every share is either sent or kept.
func (c *Ctx) keptShares(e *Engine) {
	for _, fn := range e.P.Functions() {
		if !inPkg(fn, "shuttermint/keyper") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Name() != "Encrypt" {
					continue
				}
				h := innermostLoop(b)
				if h == nil {
					continue
				}
				blocks := loopOf(h)
				hit := map[*ssa.BasicBlock]bool{}
				for x := range blocks {
					for _, y := range x.Instrs {
						if v, ok := y.(ssa.Value); ok && isAppendCall(v) != nil {
							hit[x] = true
						}
					}
				}
				if len(hit) == 0 {
					continue
				}
				c.must(!loopAvoids(h, blocks, hit), "shares kept", "loop over the outgoing shares in "+fnName(fn)+" at "+e.P.pos(in), "an outgoing share may be neither sent nor kept")
			}
		}
	}
}

// innermostLoop returns the header of the innermost loop of a block.
func innermostLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := 0
	for _, h := range b.Parent().Blocks {
		if !isLoopHead(h) {
			continue
		}
		l := loopOf(h)
		if l[b] && (best == nil || len(l) < n) {
			best, n = h, len(l)
		}
	}
	return best
}

func isLoopHead(h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) {
			return true
		}
	}
	return false
}

// loopAvoids: there is an iteration that passes none of the blocks.
func loopAvoids(h *ssa.BasicBlock, blocks, hit map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == h {
				return true
			}
			if !blocks[s] || hit[s] || seen[s] {
				continue
			}
			seen[s] = true
			if visit(s) {
				return true
			}
		}
		return false
	}
	return !hit[h] && visit(h)
}

var handled = []struct {
	name, get, list, event string
	phase                  int
}{
	{"HandlePolyCommitmentMsg", "GetPolyCommitments", "Commitments", "shutterevents.PolyCommitment", 1},
	{"HandlePolyEvalMsg", "GetPolyEvals", "PolyEvals", "shutterevents.PolyEval", 1},
	{"HandleAccusationMsg", "GetAccusations", "Accusations", "shutterevents.Accusation", 2},
	{"HandleApologyMsg", "GetApologies", "Apologies", "shutterevents.Apology", 3},
}

// events since the last sync of an eon
func eventList(E M, get, list string) M {
	return Or(Call(get, E, Fld(dState, "SyncHeight")), func(x *Expr) bool {
		return x.Op == "slice" && len(x.Args) > 0 && Fld(E, list)(x.Args[0])
	}, Fld(E, list))
}

// isCopy: the list is a copy of another one (its second operand), possibly in another order.
func isCopy(f *Facts, l *Expr) bool {
	if !isAppend(l) || len(l.Args) != 2 {
		return false
	}
	z := l.Args[0]
	return f.Eq(Len(Is(z)), Num(0)) || Nil(z) || z.Op == "slice" && len(z.Args) > 2 && Num(0)(z.Args[2])
}

func orCopy(f *Facts, m M) M {
	return Or(m, func(l *Expr) bool { return isCopy(f, l) && m(l.Args[1]) })
}

// eonEvents: p holds for one of the eons' events that the facts speak of.
func eonEvents(f *Facts, get, list string, p func(E, ev *Expr) bool) bool {
	for _, ev := range exprsIn(f, Idx(orCopy(f, f.upTo(eventList(dEon, get, list))), Any)) {
		for _, l := range f.eqs(ev.Args[0]) {
			if isCopy(f, l) {
				l = l.Args[1]
			}
			if !eventList(dEon, get, list)(l) {
				continue
			}
			if l.Op == "slice" {
				l = l.Args[0]
			}
			if p(l.Args[0], ev) {
				return true
			}
		}
	}
	return false
}

// skipMessage: an observed message, or the part of it that is meant for one participant, may be ignored.
func skipMessage(f *Facts, name string, phase int) bool {
	if outOfPhase(f, phase) || noParticipant(f) {
		return true
	}
	if name != "HandlePolyEvalMsg" {
		return false
	}
	me := Strip(Fld(Fld(Any, "Pure"), "Keyper"))
	kp := Fld(Any, "Keypers")
	// the keyper's own share, or one for somebody else
	sender := Fld(Any, "Sender")
	for _, i := range exprsIn(f, Idx(kp, Any)) {
		own := f.Eq(Strip(Is(strip(i.Args[1]))), me) || me(i.Args[1])
		other := f.Ne(Strip(Is(strip(i.Args[1]))), me)
		if own && f.Eq(Is(i), sender) || other && f.Eq(Is(i), Or(Idx(Fld(Any, "Receivers"), Any), anyParam)) && !f.Eq(Is(i), sender) ||
			own && f.Ne(Is(i), Or(Idx(Fld(Any, "Receivers"), Any), anyParam)) {
			return true
		}
	}
	if f.Ne(self, Or(Idx(Fld(Any, "Receivers"), Any), anyParam)) || f.Eq(self, sender) {
		return true
	}
	// a share that cannot be decrypted
	return f.NonNil(Ext(func(x *Expr) bool {
		return x != nil && x.Op == "call" && contains(x, func(y *Expr) bool { return Fld(Any, "EncryptedEvals")(y) || anyParam(y) })
	}, 1))
}

func anyParam(x *Expr) bool { return x != nil && x.Op == "param" }

// noParticipant: an address is not among the participants of a key generation.
func noParticipant(f *Facts) bool {
	kp := Fld(Any, "Keypers")
	return f.NonNil(Ext(Call("FindAddressIndex", kp), 1)) ||
		f.All(kp, func(g *Facts) bool { return g.Ne(Idx(kp, Any), Any) })
}

// outOfPhase: a height is not in the k-th phase.
func outOfPhase(f *Facts, k int) bool {
	if f.Ne(Call("getPhaseAtHeight"), Num(k)) {
		return true
	}
	bounds := func(name string) []*Expr {
		if name == "" {
			return nil
		}
		return exprsIn(f, Fld(Any, name))
	}
	for _, h := range exprsIn(f, Fld(Any, "Height")) {
		for _, s := range exprsIn(f, Fld(Any, "StartHeight")) {
			for _, b := range bounds(phaseEnds[k][0]) {
				if f.PolyLt(polyOf(h), polyOf(b).add(polyOf(s), 1)) {
					return true
				}
			}
			for _, b := range bounds(phaseEnds[k][1]) {
				if f.PolyLe(polyOf(b).add(polyOf(s), 1), polyOf(h)) {
					return true
				}
			}
		}
	}
	return false
}

// phaseLengths: the phases begin with the eon and have the same length.
func phaseLengths(c *Ctx, e *Engine) {
	for _, f := range e.P.Functions() {
		r := f.Signature.Results()
		if !inPkg(f, "shuttermint/keyper") || len(f.Blocks) == 0 || r.Len() != 1 || typeBase(r.At(0).Type()) != "keyper.PhaseLength" || len(f.Params) != 1 {
			continue
		}
		c.walk(e, f, nil, func(s *CSite) {
			if s.Kind != "return" || s.Fn != f {
				return
			}
			c.each(s, "phases", func(a *CAlt) bool {
				m := structFields(a.Args[0])
				if m == nil {
					return false
				}
				for name, k := range map[string]int64{"Off": 0, "Dealing": 1, "Accusing": 2, "Apologizing": 3} {
					if m[name] == nil && k > 0 || !polyEq(polyOf(m[name]), polyOf(&Expr{Op: "param", S: "$0"}).mul(polyConst(k))) {
						return false
					}
				}
				return true
			}, "the phases of the key generation do not follow one another with the configured length")
		})
	}
}

func checkC17(c *Ctx) {
	e := c.shm()
	phaseLengths(c, e)
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "call" || len(s.Alts) == 0 {
			return
		}
		for i := range handled {
			h := handled[i]
			if !nameEnds(s.Name, h.name) {
				continue
			}
			with := func(a *CAlt, p func(D, E, ev *Expr, m map[string]*Expr) bool) bool {
				if len(a.Args) != 2 || !Fld(aDKG, "Pure")(strip(a.Args[0])) {
					return false
				}
				D := strip(a.Args[0]).Args[0]
				m := structFields(a.Args[1])
				if m == nil {
					return false
				}
				return eonEvents(a.Facts, h.get, h.list, func(E, ev *Expr) bool { return p(D, E, ev, m) })
			}
			(&complete{e: e, rule: "messages handled", what: h.name,
				elem: func(t types.Type) bool { b := typeBase(t); return b == h.event || b == "common.Address" },
				did:  Call(h.name), done: h.name == "HandlePolyEvalMsg",
				skip: func(f *Facts) bool { return skipMessage(f, h.name, h.phase) }}).check(c, s)
			c.each(s, "message window", func(a *CAlt) bool {
				return with(a, func(D, E, ev *Expr, m map[string]*Expr) bool {
					return eonOf(a.Facts, E, D) && inPhase(a.Facts, E, D, sel(ev, "Height"), h.phase) &&
						m["Eon"] != nil && (a.Facts.matchUpTo(m["Eon"], Fld(Is(D), "Eon")) || a.Facts.matchUpTo(m["Eon"], Fld(Is(E), "Eon")) || a.Facts.matchUpTo(m["Eon"], Fld(Is(ev), "Eon")))
				})
			}, "the message may come from a block outside its phase or belong to another eon")
			c.each(s, "message sender", func(a *CAlt) bool {
				return with(a, func(D, E, ev *Expr, m map[string]*Expr) bool {
					k := "Sender"
					switch h.phase {
					case 2:
						k = "Accuser"
					case 3:
						k = "Accused"
					}
					return m[k] != nil && a.Facts.Eq(Idx(Fld(Is(D), "Keypers"), Strip(Is(strip(m[k])))), Fld(Is(ev), "Sender"))
				})
			}, "the sender's index is not that of the event's sender among the participants")
			c.each(s, "message contents", func(a *CAlt) bool {
				return with(a, func(D, E, ev *Expr, m map[string]*Expr) bool {
					keyper := func(i *Expr, x M) bool {
						return i != nil && a.Facts.Eq(Idx(Fld(Is(D), "Keypers"), Strip(Is(strip(i)))), x)
					}
					pos := func(x *Expr, list string, by func(j *Expr) bool) bool {
						return exists(exprsIn(a.Facts, Idx(Fld(Is(ev), list), Any)), func(y *Expr) bool { return by(y) })
					}
					switch h.name {
					case "HandlePolyCommitmentMsg":
						return a.Facts.matchUpTo(m["Gammas"], Fld(Is(ev), "Gammas"))
					case "HandlePolyEvalMsg":
						me := Fld(Fld(Is(D), "Pure"), "Keyper")
						r := m["Receiver"]
						if r == nil || m["Eval"] == nil || !a.Facts.matchUpTo(r, Strip(me)) {
							return false
						}
						return pos(nil, "Receivers", func(y *Expr) bool {
							enc := Idx(Fld(Is(ev), "EncryptedEvals"), Is(y.Args[1]))
							return a.Facts.Eq(Idx(Fld(Is(D), "Keypers"), func(i *Expr) bool { return a.Facts.Eq(Strip(Is(strip(i))), Strip(me)) }), Is(y)) &&
								(a.Facts.matchUpTo(m["Eval"], Sub(enc)) || a.Facts.Did(Call("SetBytes", Any, Sub(enc))))
						})
					case "HandleAccusationMsg":
						return pos(nil, "Accused", func(y *Expr) bool { return keyper(m["Accused"], Is(y)) })
					case "HandleApologyMsg":
						return pos(nil, "Accusers", func(y *Expr) bool {
							return keyper(m["Accuser"], Is(y)) && a.Facts.matchUpTo(m["Eval"], Idx(Fld(Is(ev), "PolyEval"), Is(y.Args[1])))
						})
					}
					return false
				})
			}, "the message is not passed on as it was observed")
		}
		for _, t := range []struct {
			name  string
			needs []int
		}{{"StartPhase2Accusing", []int{0, 1}}, {"StartPhase3Apologizing", []int{2}}, {"PureDKG).Finalize", []int{3}}} {
			if !nameEnds(s.Name, t.name) {
				continue
			}
			c.each(s, "phase order", func(a *CAlt) bool {
				p := strip(a.Args[0])
				if !Fld(aDKG, "Pure")(p) {
					return false
				}
				D := p.Args[0]
				for _, i := range t.needs {
					h := handled[i]
					if !exists(exprsIn(a.Facts, dEon), func(E *Expr) bool {
						return eonOf(a.Facts, E, D) && inPhaseFrom(a.Facts, E, D, nextBlock, h.phase+1) &&
							a.Facts.All(orCopy(a.Facts, a.Facts.upTo(eventList(Is(E), h.get, h.list))), func(*Facts) bool { return true })
					}) {
						return false
					}
				}
				return true
			}, "the phase begins before its time or before all messages of the previous phase were handled")
		}
	})
}

func checkC18(c *Ctx) {
	e := c.shm()
	as := c.actions(e)
	res := func(D *Expr) M { return Call("ComputeResult", Fld(Is(D), "Pure")) }
	c.eachAct(as, "EonStartVote", "restart vote", func(r *act) bool {
		D := ownerDKG(r.a.Facts, r.body["StartBatchIndex"], "StartBatchIndex")
		return D != nil && r.a.Facts.NonNil(Ext(res(D), 1))
	}, "a restart is requested although the key generation succeeded, or for another batch")
	c.eachAct(as, "EonKeyBroadcast", "broadcast", func(r *act) bool {
		D := ownerDKG(r.a.Facts, r.body["StartBatchIndex"], "StartBatchIndex")
		if D == nil {
			return false
		}
		k := Ext(res(D), 0)
		return r.a.Facts.IsNil(Ext(res(D), 1)) && r.is("EonPublicKey", Fld(k, "PublicKey")) && r.is("KeyperIndex", Or(Fld(k, "Keyper"), Fld(Fld(Is(D), "Pure"), "Keyper")))
	}, "the broadcast does not carry the result of a successful key generation")
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	c.walk(e, root, nil, func(s *CSite) {
		if len(s.Alts) == 0 {
			return
		}
		switch {
		case s.Kind == "call" && nameEnds(s.Name, "PureDKG).Finalize"):
			c.each(s, "finalize", func(a *CAlt) bool {
				p := strip(a.Args[0])
				return Fld(aDKG, "Pure")(p) && exists(exprsIn(a.Facts, dEon), func(E *Expr) bool {
					return eonOf(a.Facts, E, p.Args[0]) && inPhaseFrom(a.Facts, E, p.Args[0], nextBlock, 4)
				})
			}, "the key generation may end before the apologizing phase is over")
		case s.Kind == "call" && nameEnds(s.Name, "PureDKG).ComputeResult"):
			ok, why := followedBy(e, s, Call("ComputeResult"), func(al *Alt) bool {
				fail := al.Facts.NonNil(Ext(Call("ComputeResult"), 1))
				good := al.Facts.IsNil(Ext(Call("ComputeResult"), 1))
				stored := al.Facts.Did(Call("store:EKGs"))
				acted := al.Facts.Did(Call("store:Actions"))
				return acted && (fail && !stored || good && stored)
			}, nil)
			c.must(ok, "outcome", "after ComputeResult at "+s.where(e.P), "after the result was computed neither a restart is requested nor the key stored and broadcast: "+why)
		case s.Kind == "store" && Fld(dState, "EKGs")(s.Alts[0].Target):
			c.each(s, "eon key", func(a *CAlt) bool {
				xs := listed(a.Args[0], Fld(dState, "EKGs"))
				for _, x := range xs {
					m := structFields(x)
					if m == nil {
						return false
					}
					D := ownerDKG(a.Facts, m["Eon"], "Eon")
					if D == nil || !a.Facts.matchUpTo(m["Keypers"], Fld(Is(D), "Keypers")) || !a.Facts.IsNil(Ext(res(D), 1)) ||
						!a.Facts.matchUpTo(m["EpochKG"], Sub(Ext(res(D), 0))) {
						return false
					}
				}
				return len(xs) > 0
			}, "the stored eon key is not the result of a successful key generation of this eon with its participants")
		}
	})
}
