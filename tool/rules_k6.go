package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C27", Mods: []string{"shuttermint"},
		Rule: "Every instruction of the program that changes an object (assignment to a field or element, map update, deletion, sorting, copying, appending behind a shortened slice) reached through a type of the observed state is traced backwards through loads, results, arguments and captured variables, with the values of flags on the way: all objects it can change must have been made by the program for this purpose or be deep copies of observed ones.",
		Min:  map[string]int{"write": 20},
		Run:  checkC27})
}

var stateTypes = map[string]bool{
	"observe.Shutter": true, "observe.Eon": true, "observe.BatchData": true, "observe.MainChain": true, "observe.Batch": true, "observe.Deposit": true, "observe.Accusation": true, "observe.World": true,
	"contract.BatchConfig": true, "contract.CipherExecutionReceipt": true,
}

// stateType: part of the observed state of the chains.
func stateType(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return stateType(u.Elem())
	case *types.Slice:
		return stateType(u.Elem())
	case *types.Map:
		return stateType(u.Elem())
	case *types.Named:
		n := typeBase(u)
		return stateTypes[n] || strings.HasPrefix(n, "shutterevents.") && !types.IsInterface(u)
	}
	return false
}

func checkC27(c *Ctx) {
	e := c.shm()
	t := newOwnTrace(e, stateType)
	for _, f := range e.P.Functions() {
		if f.Name() == "GobDecode" || strings.HasPrefix(f.Name(), "Unmarshal") || isBinding(f) {
			continue
		}
		c.fns[f] = true
		for _, w := range ownWrites(f) {
			touched, foreign := t.trace(w)
			if !touched {
				continue
			}
			c.sites++
			where := "write at " + e.P.pos(w.in) + " (" + fnName(f) + ")"
			c.must(len(foreign) == 0, "write", where, "it may change an observed state that was handed over, or that is shared with one: "+strings.Join(foreign, "; "))
		}
	}
}

func init() {
	register(&Check{ID: "C28", Mods: []string{"shuttermint"},
		Rule: "The filter sent to the synchronisation is made of the height up to which all messages were handled and of the number of executed batches; that height only ever becomes the block after the one decided upon, once all kinds of messages were handled; applying a filter keeps every eon with all its fields and every message at or above the height, and every batch from the batch index on.",
		Min:  map[string]int{"filter": 1, "handled": 6, "eons kept": 1, "batches kept": 1, "applied": 1},
		Run:  checkC28})
}

var msgKinds = []struct{ list, get, handle string }{
	{"Commitments", "GetPolyCommitments", "HandlePolyCommitmentMsg"},
	{"PolyEvals", "GetPolyEvals", "HandlePolyEvalMsg"},
	{"Accusations", "GetAccusations", "HandleAccusationMsg"},
	{"Apologies", "GetApologies", "HandleApologyMsg"},
	{"EpochSecretKeyShares", "GetEpochSecretKeyShares", "HandleEpochSecretKeyShare"},
}

// filteredList: v is a loop variable that collects the elements of a list, and leaves out an element only if drop holds.
func filteredList(e *Engine, v *Expr, list M, drop func(f *Facts, elem M) bool) bool {
	v = localVar(v)
	if v == nil {
		return false
	}
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(v.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if inductive(l, v, func(f *Facts, x *Expr) bool {
				return zeroValue(x) || x.Op == "list" && len(x.Args) == 0 || x.Op == "alloc" && len(x.Fields) == 0
			},
				func(f *Facts, x *Expr) bool {
					if x.Key() == v.Key() {
						return drop(f, Idx(list, Any))
					}
					if !isAppend(x) || x.Args[0].Key() != v.Key() || len(x.Args) != 2 || x.Args[1].Op != "list" || len(x.Args[1].Args) != 1 {
						return false
					}
					l, _ := elemOf(x.Args[1].Args[0])
					return l != nil && list(l)
				}) {
				return true
			}
		}
	}
	return false
}

// keepsFrom: v contains all elements of the list of messages from the given height on.
func keepsFrom(e *Engine, f *Facts, v *Expr, owner M, get, list string, height M) bool {
	if v == nil {
		return false
	}
	L := Fld(owner, list)
	before := func(g *Facts) bool { return g.Lt(Fld(Idx(L, Any), "Height"), height) }
	if L(v) {
		return true
	}
	switch v.Op {
	case "call", "append":
		if !isAppend(v) {
			return Call(get, owner, height)(v)
		}
		return len(v.Args) == 2 && (zeroValue(v.Args[0]) || v.Args[0].Op == "alloc" || v.Args[0].Op == "list") && keepsFrom(e, f, v.Args[1], owner, get, list, height)
	case "slice":
		if v.Args[2].Key() != "_" || !L(v.Args[0]) {
			return false
		}
		return v.Args[1].Key() == "_" || Num(0)(v.Args[1]) || partOf(f, L, "up", v.Args[1], before)
	case "nil":
		return f.All(L, before) || f.Eq(Len(L), Num(0)) || exists(exprsIn(f, Len(L)), func(n *Expr) bool {
			return f.All(func(p *Expr) bool {
				return p.Op == "part" && p.S == "up" && L(p.Args[0]) && f.Eq(Is(strip(p.Args[1])), Is(strip(n)))
			}, before)
		})
	case "phi", "opaque":
		return filteredList(e, v, Fld(Any, list), func(g *Facts, elem M) bool { return g.Lt(Fld(elem, "Height"), Any) })
	}
	return f.matchUpTo(v, func(x *Expr) bool {
		return x.Key() != v.Key() && (L(x) || Call(get, owner, height)(x))
	})
}

func checkC28(c *Ctx) {
	e := c.shm()
	// what is sent to the synchronisation
	filters := func(visit func(*CSite)) {
		for _, f := range e.P.Functions() {
			if !inPkg(f, "shuttermint/keyper") || inPkg(f, "shuttermint/keyper/observe") || isBinding(f) {
				continue
			}
			for _, st := range e.Summary(f).Sites {
				if st.Kind == "send" || st.Kind == "select" {
					s := &CSite{Site: st}
					for _, a := range st.Alts {
						s.Alts = append(s.Alts, &CAlt{Facts: a.Facts, Args: a.Args, Target: a.Target, Res: a.Res})
					}
					if sends(s, "observe.ShutterFilter") {
						visit(s)
					}
				}
			}
		}
	}
	filters(func(s *CSite) {
		c.each(s, "filter", func(a *CAlt) bool {
			return eachSent(a, "observe.ShutterFilter", func(v *Expr) bool {
				m := structFields(v)
				steps := Fld(Any, "NumExecutionHalfSteps")
				st := Typed("keyper.State")
				if m == nil {
					return false
				}
				h, i := m["SyncHeight"], m["BatchIndex"]
				return (h == nil || zeroValue(h) || Fld(st, "SyncHeight")(strip(h))) &&
					(i == nil || zeroValue(i) || Bin("/", Strip(steps), Num(2))(strip(i)) || Bin(">>", Strip(steps), Num(1))(strip(i)))
			})
		}, "the filter is not made of the height up to which messages were handled and the number of executed batches")
	})
	c.handled28(e)

	// what a filter does
	apply := c.method(e, "shuttermint/keyper/observe.Shutter", "ApplyFilter")
	if apply == nil {
		return
	}
	now := func(name string) M { return Or(Fld(Param(1), name), Fld(Fld(Param(0), "Filter"), name)) }
	height, index := now("SyncHeight"), now("BatchIndex")
	eons, batches := Fld(Any, "Eons"), Fld(Any, "Batches")
	var e2 *Engine
	goodEon := func(f *Facts, x *Expr, height M, elem func(E *Expr) bool) bool {
		if x == nil {
			return false
		}
		if elem(x) {
			return true
		}
		m := structFields(x)
		if m == nil {
			return false
		}
		E := map[string]*Expr{}
		var es []*Expr
		find := func(y *Expr) {
			walkExpr(y, func(z *Expr) bool {
				if elem(z) && E[z.Key()] == nil {
					E[z.Key()] = z
					es = append(es, z)
				}
				return true
			})
		}
		for _, v := range m {
			find(v)
		}
		for _, y := range x.Args {
			find(y)
		}
		return exists(es, func(E *Expr) bool {
			st := typeFields(E.T)
			for _, name := range st {
				v, given := m[name]
				if !given && x.Op == "struct" && len(x.Args) == 1 && x.Args[0].Key() == E.Key() {
					continue // copied from the eon
				}
				ok := given && Fld(Is(E), name)(v)
				for _, k := range msgKinds {
					if k.list == name {
						ok = given && keepsFrom(e, f, v, Is(E), k.get, k.list, height)
					}
				}
				if !ok {
					return false
				}
			}
			return len(st) > 0
		})
	}
	// getters that keep what they should stay as they are
	for _, k := range msgKinds {
		get := e.P.Func("(*shuttermint/keyper/observe.Eon)." + k.get)
		if get == nil || get.Synthetic != "" {
			get = e.P.Func("(shuttermint/keyper/observe.Eon)." + k.get)
		}
		if get == nil {
			continue
		}
		sum := e.Summary(get)
		ok := len(sum.Outs) > 0
		for _, o := range sum.Outs {
			ok = ok && len(o.Results) == 1 && keepsFrom(e, o.Facts, o.Results[0], Param(0), k.get, k.list, Param(1))
		}
		if ok {
			if e2 == nil {
				e2 = NewEngine(e.P)
				e2.Opaque = map[*ssa.Function]bool{}
			}
			e2.Opaque[get] = true
		}
	}
	if e2 != nil {
		e = e2
	}
	nE, nB := 0, 0
	c.walk(e, apply, nil, func(s *CSite) {
		switch {
		case s.Kind == "store" && writeField(s.W) == "Eons":
			nE++
			c.each(s, "eons kept", func(a *CAlt) bool {
				V := a.Args[0]
				if eons(V) {
					return true
				}
				elem := func(x *Expr) bool { return Idx(eons, Any)(x) }
				// every element is written into the new list
				if a.Facts.All(eons, func(g *Facts) bool {
					return exists(g.dids(func(x *Expr) bool {
						return x.Op == "call" && x.S == "store:*" && len(x.Args) == 2 && Idx(Is(V), Any)(x.Args[0])
					}), func(x *Expr) bool {
						return goodEon(a.Facts, x.Args[1], height, func(E *Expr) bool { return elem(E) && E.Args[1].Key() == x.Args[0].Args[1].Key() })
					})
				}) {
					return true
				}
				// or appended to it
				return appendsAll(e, V, eons, func(f *Facts, x, E *Expr) bool {
					return goodEon(f, x, Or(height, Fld(Any, "SyncHeight"), func(h *Expr) bool { return h.Op == "param" }), func(y *Expr) bool { return y.Key() == E.Key() })
				})
			}, "an eon, or a part of it that is still needed, is lost")
		case s.Kind == "mapupdate" && mapOf(s, "observe.BatchData"):
			nB++
			ok := !leavesEarly(s.In)
			h := innermostLoop(s.In.Block())
			for _, l := range e.Summary(s.Fn).Loops {
				if l.Head != h {
					continue
				}
				for _, ed := range l.Edges {
					if ed.Back && !ed.Facts.Did(Call("mapupdate:*")) && !ed.Facts.Lt(Any, Fld(Any, "BatchIndex")) && !ed.Facts.Lt(Any, Typed("uint64")) {
						ok = false
					}
				}
			}
			c.must(ok && h != nil, "batches kept", s.where(e.P), "a batch that is still needed may be lost")
			c.each(s, "batches kept", func(a *CAlt) bool {
				return len(a.Args) == 2 && (Idx(batches, Is(a.Args[0]))(a.Args[1]) || a.Facts.Eq(Is(a.Args[1]), Idx(batches, Is(a.Args[0]))) || rangeElem(a.Args[0], a.Args[1]))
			}, "a batch is filed under another index")
		case s.Kind == "delete" && mapOf(s, "observe.BatchData"):
			nB++
			c.each(s, "batches kept", func(a *CAlt) bool { return a.Facts.Lt(Is(a.Args[1]), index) }, "a batch that is still needed may be lost")
		case s.Kind == "store" && writeField(s.W) == "Batches":
			c.each(s, "batches kept", func(a *CAlt) bool { return batches(a.Args[0]) || a.Args[0].Op == "alloc" || a.Args[0].Op == "opaque" }, "the batches are replaced by something else")
		case s.Kind == "store" && strings.HasSuffix(writeOwner(s.W), "observe.Shutter") && writeField(s.W) != "Filter":
			c.must(false, "applied", s.where(e.P), "filtering changes something other than eons and batches")
		}
	})
	_ = nE
	_ = nB
	c.returns(e, apply, "applied", func(a *CAlt) bool {
		r := a.Args[0]
		return Param(0)(r) || a.Facts.Did(Call("store:Eons")) || r.Op == "alloc"
	}, "the state returned is not the filtered one")
}

// handled28: the height up to which messages were handled.
func (c *Ctx) handled28(e *Engine) {
	decide := c.method(e, "shuttermint/keyper.Decider", "Decide")
	if decide == nil {
		return
	}
	top := func(s *CSite) ssa.Instruction {
		if len(s.Path) > 0 {
			return s.Path[0].In
		}
		return s.In
	}
	handlers := map[string][]ssa.Instruction{}
	var stores []*CSite
	c.walk(e, decide, nil, func(s *CSite) {
		for _, k := range msgKinds {
			if s.Kind == "call" && nameEnds(s.Name, k.handle) {
				handlers[k.handle] = append(handlers[k.handle], top(s))
			}
		}
		if s.Kind == "store" && writeField(s.W) == "SyncHeight" && strings.HasSuffix(writeOwner(s.W), "keyper.State") {
			stores = append(stores, s)
		}
	})
	for _, s := range stores {
		c.each(s, "handled", func(a *CAlt) bool {
			return Fld(Any, "SyncHeight")(a.Args[0]) || exists(exprsIn(a.Facts, Fld(Typed("observe.Shutter"), "CurrentBlock")), func(x *Expr) bool {
				return polyEq(polyOf(a.Args[0]), polyOf(x).add(polyConst(1), 1))
			}) || isNextBlock(a.Args[0])
		}, "the height up to which messages were handled is not the block after the one decided upon")
		for _, k := range msgKinds {
			ok := false
			for _, h := range handlers[k.handle] {
				if h.Parent() == top(s).Parent() && (h.Block() == top(s).Block() && before(h, top(s)) || h.Block() != top(s).Block() && h.Block().Dominates(top(s).Block())) {
					ok = true
				}
			}
			c.must(ok, "handled", k.list+" before "+s.where(e.P), "messages are taken as handled although they were not handled yet")
		}
	}
	inDecide := map[ssa.Instruction]bool{}
	for _, s := range stores {
		inDecide[s.In] = true
	}
	// anywhere else
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") || isBinding(f) {
			continue
		}
		for _, s := range e.Summary(f).Sites {
			if s.Kind != "store" || s.Fn != f || s.W == nil || s.W.Obj == nil || s.W.Obj.Name() != "SyncHeight" || inDecide[s.In] || !strings.HasSuffix(writeOwner(s.W), "keyper.State") {
				continue
			}
			c.sites++
			for _, a := range s.Alts {
				fresh := a.Facts.Lt(Num(0), Len(Fld(Any, "DKGs"))) || a.Facts.Ne(Len(Fld(Any, "DKGs")), Num(0))
				c.must(fresh && Fld(Typed("observe.Shutter"), "CurrentBlock")(strip(a.Args[0])) || zeroValue(a.Args[0]), "handled", "store at "+e.P.pos(s.In)+" ("+fnName(f)+")", "messages that were never handled are taken as handled")
			}
		}
	}
}

func isNextBlock(x *Expr) bool {
	found := false
	walkExpr(x, func(y *Expr) bool {
		if Fld(Any, "CurrentBlock")(y) && y.Args[0].T != nil && typeBase(y.Args[0].T) == "observe.Shutter" && polyEq(polyOf(x), polyOf(y).add(polyConst(1), 1)) {
			found = true
		}
		return !found
	})
	return found
}

func chanOf(t types.Type, elem string) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && typeBase(ch.Elem()) == elem
}

func typeFields(t types.Type) []string {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < st.NumFields(); i++ {
		r = append(r, st.Field(i).Name())
	}
	return r
}

func writeField(w *Write) string {
	if w == nil || w.Obj == nil {
		return ""
	}
	return w.Obj.Name()
}

func writeOwner(w *Write) string {
	if w == nil {
		return ""
	}
	v, ok := w.Obj.(*types.Var)
	if !ok {
		return ""
	}
	return fieldOwner[v]
}

// mapOf: the site changes a map with values of the named type.
func mapOf(s *CSite, elem string) bool {
	var t types.Type
	switch x := s.In.(type) {
	case *ssa.MapUpdate:
		t = x.Map.Type()
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			t = x.Call.Args[0].Type()
		}
	}
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && typeBase(derefAll(m.Elem())) == elem
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// rangeElem: k and v are key and value of the same step of a loop over a map.
func rangeElem(k, v *Expr) bool {
	k, v = strip(k), strip(v)
	return v.Op == "index" && v.Args[1].Key() == k.Key()
}

// localVar is the variable as the function knows it that it belongs to.
func localVar(v *Expr) *Expr {
	if v == nil || v.Op != "phi" && v.Op != "opaque" {
		return nil
	}
	return &Expr{Op: v.Op, S: v.S, T: v.T, Args: v.Args}
}

// appendsAll: V is a loop variable to which something good is appended for each element of the list.
func appendsAll(e *Engine, V *Expr, list M, good func(f *Facts, x, E *Expr) bool) bool {
	V = localVar(V)
	if V == nil {
		return false
	}
	for _, fn := range e.P.Functions() {
		if !strings.HasPrefix(V.S, shortFn(fn)+".") {
			continue
		}
		for _, l := range e.Summary(fn).Loops {
			if inductive(l, V, func(f *Facts, x *Expr) bool {
				return zeroValue(x) || x.Op == "alloc" || x.Op == "list" && len(x.Args) == 0
			}, func(f *Facts, x *Expr) bool {
				if !isAppend(x) || len(x.Args) != 2 || x.Args[0].Key() != V.Key() || x.Args[1].Op != "list" || len(x.Args[1].Args) != 1 {
					return false
				}
				return exists(exprsIn(f, Len(Any)), func(n *Expr) bool {
					ok := false
					walkExpr(x.Args[1], func(y *Expr) bool {
						if y.Op == "index" && y.Args[0].Key() == n.Args[0].Key() && f.Lt(Is(y.Args[1]), Is(n)) && good(f, x.Args[1].Args[0], y) {
							ok = true
						}
						return !ok
					})
					return ok
				})
			}) {
				return true
			}
		}
	}
	return false
}

// sends: something of the type is sent to a channel, by a send statement or a case of a select statement.
func sends(s *CSite, elem string) bool {
	for _, a := range s.Alts {
		found := false
		eachSentOf(s.Kind, a, elem, func(*Expr) bool { found = true; return true })
		if found {
			return true
		}
	}
	return false
}

func eachSentOf(kind string, a *CAlt, elem string, p func(v *Expr) bool) bool {
	if a.Res != nil && a.Res.Op == "list" {
		for i, ch := range a.Args {
			if v := a.Res.Args[i]; ch.T != nil && chanOf(ch.T, elem) && !Nil(v) && !p(v) {
				return false
			}
		}
		return true
	}
	if a.Target != nil && a.Target.T != nil && chanOf(a.Target.T, elem) {
		return p(a.Args[0])
	}
	return true
}

func eachSent(a *CAlt, elem string, p func(v *Expr) bool) bool { return eachSentOf("", a, elem, p) }
