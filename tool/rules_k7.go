package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about how decisions are carried out: written down first, handed over once, kept until done.

const (
	keyperT  = "(*shuttermint/keyper.Keyper)."
	pendingT = "(*shuttermint/keyper/fx.PendingActions)."
	runenvT  = "(*shuttermint/keyper/fx.RunEnv)."
)

func init() {
	register(&Check{ID: "C29", Mods: []string{"shuttermint"},
		Rule: "Typestate of the keyper's state through the whole program: after any change to it, no action is handed over to the workers before it has been encoded, synced and renamed successfully onto the file that is loaded at the start, which is never written directly, and a load that fails is reported; before the first hand-over and the first decision the pending actions have been loaded, and before the first decision what the loaded state still lists is handed over. The list of actions is replaced only if it is known to be empty, and emptied only after it was handed over and its length added to the action counter; what is handed over is this list under this counter.",
		Min:  map[string]int{"written ahead": 2, "loaded first": 2, "handed over": 2, "nothing dropped": 2, "numbered": 1},
		Run:  checkC29})
	register(&Check{ID: "C30", Mods: []string{"shuttermint"},
		Rule: "Pending actions are read and changed only with their lock held, and changes are saved before the lock is released (typestate). The action at a position is added under the first number plus its position, for all positions not added before; the numbers returned are those added, and each of them is scheduled, those loaded in the order of their numbers. An action is removed only when it is expired, failed with an error that is not retriable, was sent as a message without an error, or its transaction was waited for while the keyper was not shutting down; a transaction's hash is saved before it is waited for, and an action with a saved hash is not sent again.",
		Min:  map[string]int{"locked": 8, "saved": 3, "numbers": 2, "scheduled": 2, "removed": 2, "hash": 2, "queue": 1, "carried out": 2, "order": 4},
		Run:  checkC30})
}

// ownedTypes returns the types of the program that a type consists of.
func ownedTypes(e *Engine, t types.Type, stop func(types.Type) bool, r map[string]bool) {
	switch u := t.(type) {
	case *types.Named:
		n := typeBase(u)
		if r[n] || stop(u) || u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), repoPrefix) {
			return
		}
		if _, ok := u.Underlying().(*types.Interface); ok {
			return
		}
		r[n] = true
		ownedTypes(e, u.Underlying(), stop, r)
	case *types.Pointer:
		ownedTypes(e, u.Elem(), stop, r)
	case *types.Slice:
		ownedTypes(e, u.Elem(), stop, r)
	case *types.Array:
		ownedTypes(e, u.Elem(), stop, r)
	case *types.Map:
		ownedTypes(e, u.Key(), stop, r)
		ownedTypes(e, u.Elem(), stop, r)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ownedTypes(e, u.Field(i).Type(), stop, r)
		}
	}
}

// changed returns the field (owner, name) that an instruction changes, looking through loads of it.
func changed(in ssa.Instruction) (string, string) {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		v = x.Addr
	case *ssa.MapUpdate:
		v = x.Map
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
			v = x.Call.Args[0]
		}
	}
	for v != nil {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if _, ok := x.X.(*ssa.Alloc); ok {
				return "", ""
			}
			return typeBase(derefType(x.X.Type())), structType(x.X.Type()).Field(x.Field).Name()
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return "", ""
		}
	}
	return "", ""
}

// encodes returns the type of what a call writes with a gob encoder.
func encodes(in ssa.Instruction) types.Type {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	f := c.Call.StaticCallee()
	if f == nil || f.RelString(nil) != "(*encoding/gob.Encoder).Encode" {
		return nil
	}
	v := c.Call.Args[1]
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return v.Type()
}

func calls(in ssa.Instruction, names ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	com := c.Common()
	n := ""
	if com.IsInvoke() {
		n = "." + com.Method.Name()
	} else if f := com.StaticCallee(); f != nil {
		n = fnName(f)
	}
	for _, m := range names {
		if n != "" && nameEnds(n, m) {
			return true
		}
	}
	return false
}

func checkC29(c *Ctx) {
	e := c.shm()
	run := c.method(e, "shuttermint/keyper.Keyper", "Run")
	if run == nil {
		return
	}
	owned := map[string]bool{}
	for _, p := range e.P.Prog.AllPackages() {
		if p.Pkg.Path() == repoPrefix+"shuttermint/keyper" {
			if o := p.Pkg.Scope().Lookup("State"); o != nil {
				ownedTypes(e, o.Type(), func(t types.Type) bool { return stateType(t) }, owned)
			}
		}
	}
	c.must(len(owned) > 3, "written ahead", "keyper state", "the types that make up the keyper's state were not found")
	holdsState := func(t types.Type) bool {
		r := map[string]bool{}
		ownedTypes(e, t, func(types.Type) bool { return false }, r)
		return r["keyper.State"]
	}
	// 0: as loaded, 1: changed, 2: saved, 3: written to a file that is not yet in place, 4: the file was synced
	names := []string{"loaded", "changed", "saved", "written", "written but not in place"}
	handing := map[ssa.Instruction]map[int]bool{}
	t := newTypestate(e)
	t.step = func(in ssa.Instruction, q int) []tsOut {
		if o, f := changed(in); owned[o] {
			if f == "Actions" || f == "ActionCounter" || q != 0 {
				return []tsOut{{1, -1}}
			}
		}
		if ty := encodes(in); ty != nil && holdsState(ty) {
			return []tsOut{{3, 0}, {q, 1}}
		}
		if calls(in, "os.File).Sync") && q == 3 {
			return []tsOut{{4, 0}, {1, 1}}
		}
		if calls(in, "os.Rename") && q == 4 {
			return []tsOut{{2, 0}, {1, 1}}
		}
		if o, f := changed(in); o == "fx.PendingActions" && f == "ActionMap" {
			if _, ok := in.(*ssa.MapUpdate); ok {
				if handing[in] == nil {
					handing[in] = map[int]bool{}
				}
				handing[in][q] = true
			}
		}
		if calls(in, pendingT+"AddActions") {
			if handing[in] == nil {
				handing[in] = map[int]bool{}
			}
			handing[in][q] = true
		}
		return nil
	}
	t.Run(run, 0)
	for f := range t.Fns {
		c.fns[f] = true
	}
	for in, qs := range handing {
		for q := range qs {
			c.sites++
			c.must(q == 0 || q == 2, "written ahead", fmt.Sprintf("hand-over at %s with state %s", e.P.pos(in), names[q]), "actions are handed over to be carried out although the decision is not in the state file: after a crash it is taken again")
		}
	}
	// 0: not loaded, 1: loaded
	t = newTypestate(e)
	early := map[ssa.Instruction]map[int]bool{}
	t.step = func(in ssa.Instruction, q int) []tsOut {
		if calls(in, pendingT+"Load") {
			return []tsOut{{1, 0}, {q, 1}}
		}
		if o, f := changed(in); calls(in, pendingT+"AddActions") || o == "keyper.State" && f == "Actions" {
			if early[in] == nil {
				early[in] = map[int]bool{}
			}
			early[in][q] = true
		}
		return nil
	}
	t.Run(run, 0)
	for in, qs := range early {
		for q := range qs {
			c.sites++
			c.must(q == 1, "loaded first", e.P.pos(in), "a decision is taken or handed over before the actions still pending have been loaded")
		}
	}
	c.checkFiles(e, "state", c.method(e, "shuttermint/keyper.Keyper", "LoadState"), c.method(e, "shuttermint/keyper.Keyper", "saveState"))
	c.checkResumed(e, run)
	// what is handed over
	acts, ctr := Fld(Fld(Any, "State"), "Actions"), Fld(Fld(Any, "State"), "ActionCounter")
	emptied := map[ssa.Instruction]bool{}
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") || f.Blocks == nil {
			continue
		}
		for _, s := range e.Summary(f).Sites {
			if s.Kind == "call" && nameEnds(s.Name, "RunEnv).RunActions") {
				for _, a := range s.Alts {
					c.sites++
					c.must(ctr(strip(a.Args[2])) && acts(a.Args[3]), "handed over", e.P.pos(s.In), "what is handed over is not the list of decided actions, or not under the number of its first action")
				}
			}
			o, n := changed(s.In)
			if o != "keyper.State" || n != "Actions" && n != "ActionCounter" {
				continue
			}
			for _, a := range s.Alts {
				c.sites++
				v := a.Args[len(a.Args)-1]
				switch {
				case n == "ActionCounter":
					ok := exists(exprsIn(a.Facts, ctr), func(x *Expr) bool {
						return polyEq(polyOf(strip(v)), polyOf(x).add(polyOf(&Expr{Op: "len", Args: []*Expr{sel(x.Args[0], "Actions")}}), 1))
					}) || exists([]*Expr{a.Target}, func(x *Expr) bool {
						return ctr(x) && polyEq(polyOf(strip(v)), polyOf(x).add(polyOf(&Expr{Op: "len", Args: []*Expr{sel(x.Args[0], "Actions")}}), 1))
					})
					c.must(ok, "numbered", e.P.pos(s.In), "the action counter is not raised by the number of actions that were handed over")
				case isEmpty(a.Facts, v):
					emptied[s.In] = true
				default:
					c.must(a.Facts.Eq(Len(acts), Num(0)), "nothing dropped", e.P.pos(s.In), "decided actions are replaced although there may be some that were not handed over")
				}
			}
		}
	}
	// 0: not handed over, 1: handed over, 2: and the counter raised, 3: handed over and emptied
	t = newTypestate(e)
	order := map[ssa.Instruction]map[int]bool{}
	note := func(in ssa.Instruction, q int) {
		if order[in] == nil {
			order[in] = map[int]bool{}
		}
		order[in][q] = true
	}
	late := map[ssa.Value]bool{} // the list of actions, read after it was emptied
	t.step = func(in ssa.Instruction, q int) []tsOut {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && q == 3 {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && ownedField(fa.X.Type(), fa.Field) == "State.Actions" {
				late[u] = true
			}
		}
		if ty := encodes(in); ty != nil && holdsState(ty) {
			c.must(q == 0 || q == 1, "numbered", e.P.pos(in), "the state is saved with a counter that does not fit the list of actions")
		}
		if calls(in, runenvT+"RunActions") {
			note(in, q)
			return []tsOut{{1, 0}, {q, 1}}
		}
		if o, f := changed(in); o == "keyper.State" && f == "ActionCounter" {
			note(in, q)
			if q == 3 {
				return []tsOut{{0, -1}}
			}
			return []tsOut{{2, -1}}
		} else if o == "keyper.State" && f == "Actions" {
			note(in, q)
			if q == 1 && emptied[in] {
				return []tsOut{{3, -1}}
			}
			return []tsOut{{0, -1}}
		}
		return nil
	}
	t.Run(run, 0)
	for in, qs := range order {
		for q := range qs {
			c.sites++
			where := e.P.pos(in)
			if o, f := changed(in); o != "" && f == "ActionCounter" {
				c.must(q == 1 || q == 3, "numbered", where, "the action counter is raised without a successful hand-over before it")
				if st, ok := in.(*ssa.Store); ok && q == 3 {
					empty := false
					newSlicer(e).from(st.Val, func(v ssa.Value) bool {
						empty = empty || late[v]
						return !late[v]
					})
					c.must(!empty, "numbered", where, "the action counter is raised by the length of a list that is empty by then")
				}
			} else if emptied[in] {
				c.must(q == 2 || q == 1, "nothing dropped", where, "decided actions are dropped before they were handed over")
			} else {
				c.must(q == 0, "handed over", where, "actions were handed over, but remain to be handed over again")
			}
		}
	}
}

// checkResumed: between loading the pending actions and the first decision, the actions that were decided but perhaps not
// handed over in the last run are handed over.
func (c *Ctx) checkResumed(e *Engine, run *ssa.Function) {
	reach := map[*ssa.Function][3]bool{}
	var what func(f *ssa.Function) [3]bool // loads, hands over, decides
	what = func(f *ssa.Function) [3]bool {
		if r, ok := reach[f]; ok {
			return r
		}
		reach[f] = [3]bool{}
		var r [3]bool
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if calls(in, pendingT+"Load") {
					r[0] = true
				}
				if calls(in, pendingT+"AddActions") {
					r[1] = true
				}
				if st, ok := in.(*ssa.Store); ok {
					if o, n := changed(in); o == "keyper.State" && n == "Actions" {
						if k, ok := st.Val.(*ssa.Const); !ok || !k.IsNil() {
							r[2] = true
						}
					}
				}
				if ci, ok := in.(*ssa.Call); ok {
					if g := ci.Call.StaticCallee(); g != nil && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "shuttermint/keyper") {
						x := what(g)
						for i := range r {
							r[i] = r[i] || x[i]
						}
					}
				}
			}
		}
		reach[f] = r
		return r
	}
	at := func(in ssa.Instruction) [3]bool {
		if calls(in, pendingT+"Load") {
			return [3]bool{true, false, false}
		}
		ci, ok := in.(*ssa.Call)
		if !ok || ci.Call.StaticCallee() == nil || ci.Call.StaticCallee().Pkg == nil || !strings.Contains(ci.Call.StaticCallee().Pkg.Pkg.Path(), "shuttermint/keyper") {
			return [3]bool{}
		}
		return what(ci.Call.StaticCallee())
	}
	n := 0
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper") {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				if x := at(in); !x[0] || x[2] {
					continue
				}
				seen := map[*ssa.BasicBlock]bool{}
				var bad func(b *ssa.BasicBlock, from int) ssa.Instruction
				bad = func(b *ssa.BasicBlock, from int) ssa.Instruction {
					for _, in := range b.Instrs[from:] {
						x := at(in)
						if x[2] {
							return in
						}
						if x[1] {
							return nil
						}
					}
					succs := b.Succs
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if k := emptyEdge(iff.Cond); k >= 0 {
							succs = []*ssa.BasicBlock{b.Succs[1-k]}
						}
					}
					for _, s := range succs {
						if !seen[s] {
							seen[s] = true
							if r := bad(s, 0); r != nil {
								return r
							}
						}
					}
					return nil
				}
				decides := false
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						decides = decides || at(in2)[2]
					}
				}
				if !decides {
					continue
				}
				n++
				if r := bad(b, i+1); r != nil {
					c.must(false, "resumed", e.P.pos(r), "new decisions are taken although actions decided in the last run may not have been handed over")
				}
			}
		}
	}
	c.must(n > 0, "resumed", fnName(run), "the place where the pending actions are loaded before decisions are taken was not found")
}

// emptyEdge: the index of the successor taken if the list of decided actions is empty, or -1 if this is not what the condition tells.
func emptyEdge(v ssa.Value) int {
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return -1
	}
	k, ok := bo.Y.(*ssa.Const)
	call, isLen := bo.X.(*ssa.Call)
	if !ok || !isLen || k.Value == nil || len(call.Call.Args) != 1 {
		return -1
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return -1
	}
	u, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return -1
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || typeBase(derefType(fa.X.Type())) != "keyper.State" || structType(fa.X.Type()).Field(fa.Field).Name() != "Actions" {
		return -1
	}
	n := k.Int64()
	switch op := bo.Op.String(); {
	case op == ">" && n == 0, op == "!=" && n == 0, op == ">=" && n == 1:
		return 1
	case op == "==" && n == 0, op == "<=" && n == 0, op == "<" && n == 1:
		return 0
	}
	return -1
}

// checkFiles: what is written replaces, in one step, the file that is loaded, and is loaded completely or not at all.
func (c *Ctx) checkFiles(e *Engine, what string, loads, saves *ssa.Function) {
	if loads == nil || saves == nil {
		return
	}
	text := func(x *Expr) string { return localized(strip(x)).Key() }
	var from []string
	c.walk(e, loads, nil, func(s *CSite) {
		if s.Kind == "call" && (nameEnds(s.Name, "os.Open") || nameEnds(s.Name, "os.OpenFile") || nameEnds(s.Name, "os.ReadFile") || nameEnds(s.Name, "ioutil.ReadFile")) {
			for _, a := range s.Alts {
				from = append(from, text(a.Args[0]))
			}
		}
	})
	n := 0
	c.walk(e, saves, nil, func(s *CSite) {
		if s.Kind != "call" || !nameEnds(s.Name, "os.Rename") {
			return
		}
		n++
		c.each(s, "in place", func(a *CAlt) bool {
			tmp, to := text(a.Args[0]), text(a.Args[1])
			written := exists(append(a.Facts.dids(Call("os.Create")), a.Facts.dids(Call("os.OpenFile"))...), func(d *Expr) bool { return text(d.Args[0]) == tmp })
			ok := len(from) > 0 && tmp != to && written
			for _, f := range from {
				ok = ok && f == to
			}
			return ok
		}, "the file is not written next to the one that is loaded and then put in its place")
	})
	c.must(n > 0, "in place", what, "the file is never put in place")
	opened, dec := Call("os.Open"), Call("gob.Decoder).Decode")
	for i, o := range e.Summary(loads).Outs {
		last := o.Results[len(o.Results)-1]
		if !Nil(last) && !o.Facts.IsNil(Is(last)) {
			continue
		}
		f := o.Facts
		missing := f.True(Call("os.IsNotExist", Ext(opened, 1))) || f.True(Call("errors.Is", Ext(opened, 1), Any))
		loaded := f.Did(dec) && f.IsNil(dec)
		c.must(missing || loaded, "loaded", fmt.Sprintf("return %d of %s", i, fnName(loads)), "the file exists, but could not be loaded, and the keyper goes on without it")
	}
}

// isEmpty: the list is known to be empty.
func isEmpty(f *Facts, l *Expr) bool {
	return Nil(l) || f.Eq(Len(Is(l)), Num(0)) || l.Op == "slice" && len(l.Args) > 2 && Num(0)(l.Args[2]) || l.Op == "list" && len(l.Args) == 0
}

// pendingFields are what the pending actions consist of.
var pendingFields = map[string]bool{"ActionMap": true, "MainChainTXHashes": true, "CurrentID": true}

// readsPending: the instruction reads one of the fields of the pending actions.
func readsPending(in ssa.Instruction) bool {
	u, ok := in.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, fresh := fa.X.(*ssa.Alloc)
	return !fresh && typeBase(derefType(fa.X.Type())) == "fx.PendingActions" && pendingFields[structType(fa.X.Type()).Field(fa.Field).Name()]
}

func checkC30(c *Ctx) {
	e := c.shm()
	c.checkPendingLock(e)
	c.checkNumbers(e)

	pa := Any
	amap, hmap := Fld(pa, "ActionMap"), Fld(pa, "MainChainTXHashes")
	key := func(a *CAlt, k *Expr) M { return a.Facts.upTo(Is(k)) }
	// carrying out
	bg := c.method(e, "shuttermint/keyper/fx.RunEnv", "StartBackgroundTasks")
	c.checkFiles(e, "pending actions", c.method(e, "shuttermint/keyper/fx.PendingActions", "Load"), c.method(e, "shuttermint/keyper/fx.PendingActions", "save"))
	removes := map[*ssa.Function]int{} // functions that remove the action with the number given
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/keyper/fx") {
			continue
		}
		for _, s := range e.Summary(f).Sites {
			if s.Kind != "delete" || writeField(s.W) != "ActionMap" {
				continue
			}
			for i := range f.Params {
				given := len(s.Alts) > 0
				for _, a := range s.Alts {
					given = given && Param(i)(strip(a.Args[len(a.Args)-1]))
				}
				if given {
					removes[f] = i
					c.must(!avoids(f, map[*ssa.BasicBlock]bool{s.In.Block(): true}), "removed", fnName(f), "an action that is done may not be removed: it is carried out again after a restart")
				}
			}
		}
	}
	removable := func(s *CSite, a *CAlt, num *Expr) bool {
		id := key(a, num)
		act := Idx(amap, id)
		expired := a.Facts.True(Call(".IsExpired", act))
		sent := Call(".SendMessage", Any, Any, func(x *Expr) bool { return x.Op == "field" && x.S == "Msg" && contains(x, act) })
		done := a.Facts.Did(sent) && a.Facts.IsNil(sent)
		hopeless := a.Facts.False(Call("IsRetriable")) && exists(a.Facts.dids(Call("IsRetriable")), func(x *Expr) bool {
			return len(x.Args) == 1 && a.Facts.NonNil(Is(x.Args[0]))
		})
		waited := Call("medley.WaitMined", Any, Any, a.Facts.upTo(Idx(hmap, id)))
		over := a.Facts.Did(waited) && (a.Facts.IsNil(Call("(context.Context).Err")) || stillRunning(s.In))
		for _, p := range s.Path {
			over = over || a.Facts.Did(waited) && stillRunning(p.In)
		}
		return expired || done || hopeless || over
	}
	c.walk(e, bg, nil, func(s *CSite) {
		_, f := wField(s)
		switch {
		case s.Kind == "delete" && f == "ActionMap":
			if _, ok := removes[s.Fn]; !ok {
				c.each(s, "removed", func(a *CAlt) bool {
					return removable(s, a, a.Args[len(a.Args)-1])
				}, "a pending action is removed although it was neither carried out nor became pointless")
			}
		case s.Kind == "call" && s.Callee != nil && removesParam(removes, s.Callee):
			c.each(s, "removed", func(a *CAlt) bool {
				return removable(s, a, a.Args[removes[s.Callee]])
			}, "a pending action is removed although it was neither carried out nor became pointless")
		case s.Kind == "call" && nameEnds(s.Name, ".SendTX"):
			c.each(s, "carried out", func(a *CAlt) bool {
				act := strip(a.Args[0])
				return a.Facts.matchUpTo(unassert(act), Idx(amap, Any)) && a.Facts.False(Call(".IsExpired", Is(unassert(act))))
			}, "a transaction is sent for something else than a pending action that has not expired")
			ok, why := followedBy(e, s, Call(".SendTX"), func(al *Alt) bool {
				return exists(al.Facts.dids(Call(".SendTX")), func(d *Expr) bool {
					return al.Facts.Did(Call("mapupdate:MainChainTXHashes", Any, Any, al.Facts.upTo(Call(".Hash", Ext(Is(d), 0)))))
				})
			}, func(al *Alt) bool { return al.Facts.NonNil(Ext(Call(".SendTX"), 1)) })
			c.must(ok, "hash", s.where(e.P), "a transaction was sent, but its hash is not recorded: "+why)
		case s.Kind == "call" && nameEnds(s.Name, ".SendMessage"):
			c.each(s, "carried out", func(a *CAlt) bool {
				m := a.Args[len(a.Args)-1]
				return m.Op == "field" && m.S == "Msg" && a.Facts.matchUpTo(unassert(m.Args[0]), Idx(amap, Any)) && a.Facts.False(Call(".IsExpired", Is(unassert(m.Args[0]))))
			}, "what is sent is not the message of a pending action that has not expired")
			// done is done
			for i, p := range append(append([]*Site{}, s.Path...), s.Site) {
				rs := p.Fn.Signature.Results()
				if i == 0 || rs.Len() != 2 || !types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
					continue
				}
				snd := Call(".SendMessage")
				for _, r := range e.Summary(p.Fn).Sites {
					for _, a := range r.Alts {
						if r.Kind == "return" && a.Facts.Did(snd) && a.Facts.IsNil(snd) && len(a.Args) == 2 {
							c.must(a.Args[0].Op == "const" && a.Args[0].S == "true" || a.Facts.Did(Call("delete:ActionMap")), "removed", e.P.pos(r.In), "a message that was sent remains pending: it is sent again after a restart")
						}
					}
				}
			}
		case s.Kind == "mapupdate" && f == "MainChainTXHashes":
			c.each(s, "hash", func(a *CAlt) bool {
				id, h := a.Args[0], a.Args[1]
				return a.Facts.matchUpTo(h, Call(".Hash", Ext(Call(".SendTX", func(x *Expr) bool {
					return Idx(amap, key(a, id))(unassert(x))
				}), 0)))
			}, "the hash recorded is not that of the transaction sent for this action")
		case (s.Kind == "send" || s.Kind == "select") && sends(s, "fx.ActionID"):
			c.each(s, "hash", func(a *CAlt) bool {
				return eachSent(a, "fx.ActionID", func(id *Expr) bool {
					return a.Facts.Did(Call("mapupdate:MainChainTXHashes", Any, key(a, id)))
				})
			}, "a transaction is waited for before its hash was saved")
		}
	})
	c.checkWorkers(e, bg)
	// scheduling
	for _, n := range []string{"RunActions", "Load"} {
		root := c.method(e, "shuttermint/keyper/fx.RunEnv", n)
		c.walk(e, root, nil, func(s *CSite) {
			if (s.Kind == "send" || s.Kind == "select") && sends(s, "fx.ActionID") {
				c.each(s, "queue", func(a *CAlt) bool {
					return sentTo(a, func(ch, id *Expr) bool {
						act := Idx(amap, key(a, id))
						isTx := a.Facts.True(func(x *Expr) bool {
							return x.Op == "istype" && strings.HasSuffix(x.S, "fx.MainChainTX") && act(x.Args[0])
						})
						isMsg := a.Facts.True(func(x *Expr) bool {
							return x.Op == "istype" && strings.HasSuffix(x.S, "fx.SendShuttermintMessage") && act(x.Args[0])
						})
						h := Idx(hmap, key(a, id))
						at := a.Facts.upTo
						switch {
						case at(Fld(Any, "shuttermintMessages"))(ch):
							return isMsg
						case at(Fld(Any, "mainChainTXs"))(ch):
							return isTx && a.Facts.Eq(h, noHash)
						case at(Fld(Any, "inFlightMainChainTXs"))(ch):
							return isTx && a.Facts.Ne(h, noHash)
						}
						return false
					})
				}, "the action is put into a queue to which it does not belong (sent already, not sent yet, or of the other kind)")
			}
		})
	}
}

func removesParam(m map[*ssa.Function]int, f *ssa.Function) bool {
	_, ok := m[f]
	return ok
}

// stillRunning: the instruction is reached only if a context was not done when this was asked for.
func stillRunning(in ssa.Instruction) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op.String() != "==" || iff.Block().Succs[1] != b {
			continue
		}
		ex, ok := bo.X.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		sel, ok := ex.Tuple.(*ssa.Select)
		k, isK := bo.Y.(*ssa.Const)
		if !ok || !isK || sel.Blocking || k.Value == nil {
			continue
		}
		if n := int(k.Int64()); n >= 0 && n < len(sel.States) && calls2(sel.States[n].Chan, ".Done") {
			return true
		}
	}
	return false
}

func calls2(v ssa.Value, name string) bool {
	in, ok := v.(ssa.Instruction)
	return ok && calls(in, name)
}

func noHash(x *Expr) bool {
	return zeroValue(x) || Global("zerohash")(x)
}

func unassert(x *Expr) *Expr {
	for x != nil && x.Op == "ta" && len(x.Args) > 0 {
		x = x.Args[0]
	}
	return x
}

// sentTo: p holds for all channels and action numbers sent to them.
func sentTo(a *CAlt, p func(ch, v *Expr) bool) bool {
	if a.Res != nil && a.Res.Op == "list" {
		n := 0
		for i, ch := range a.Args {
			if v := a.Res.Args[i]; ch.T != nil && chanOf(ch.T, "fx.ActionID") && !Nil(v) {
				n++
				if !p(ch, v) {
					return false
				}
			}
		}
		return n > 0
	}
	return len(a.Args) == 2 && p(a.Args[0], a.Args[1])
}

// checkPendingLock: typestate of the pending actions.
func (c *Ctx) checkPendingLock(e *Engine) {
	const held, dirty, encoded, synced = 1, 2, 4, 8
	access := map[ssa.Instruction]map[int]bool{}
	free := map[ssa.Instruction]map[int]bool{}
	again := map[ssa.Instruction]map[int]bool{}
	note := func(m map[ssa.Instruction]map[int]bool, in ssa.Instruction, q int) {
		if m[in] == nil {
			m[in] = map[int]bool{}
		}
		m[in][q] = true
	}
	isMux := func(in ssa.Instruction) bool {
		com := in.(ssa.CallInstruction).Common()
		if len(com.Args) == 0 {
			return false
		}
		fa, ok := com.Args[0].(*ssa.FieldAddr)
		return ok && typeBase(derefType(fa.X.Type())) == "fx.PendingActions"
	}
	t := newTypestate(e)
	t.step = func(in ssa.Instruction, q int) []tsOut {
		if calls(in, "Mutex).Lock", "Mutex).RLock") && isMux(in) {
			note(again, in, q)
			return []tsOut{{q | held, -1}}
		}
		if calls(in, "Mutex).Unlock", "Mutex).RUnlock") && isMux(in) {
			note(free, in, q)
			return []tsOut{{q &^ held, -1}}
		}
		if o, f := changed(in); o == "fx.PendingActions" && pendingFields[f] {
			note(access, in, q)
			return []tsOut{{q&^(encoded|synced) | dirty, -1}}
		}
		if readsPending(in) {
			note(access, in, q)
		}
		if ty := encodes(in); ty != nil && typeBase(derefType(ty)) == "fx.PendingActions" {
			note(access, in, q)
			return []tsOut{{q&^synced | encoded, 0}, {q, 1}}
		}
		if calls(in, "os.File).Sync") && q&encoded != 0 {
			return []tsOut{{q | synced, 0}, {q, 1}}
		}
		if calls(in, "gob.Decoder).Decode") && strings.Contains(decodeArg(in), "fx.PendingActions") {
			note(access, in, q)
		}
		if calls(in, "os.Rename") && q&synced != 0 {
			return []tsOut{{q &^ (dirty | encoded | synced), 0}, {q &^ (encoded | synced), 1}}
		}
		return nil
	}
	// from outside, the lock is not held
	n := 0
	fns := append([]*ssa.Function{}, e.P.Functions()...)
	sort.SliceStable(fns, func(i, j int) bool { return fns[i].Parent() == nil && fns[j].Parent() != nil })
	for _, f := range fns {
		if f.Parent() != nil && t.Fns[f] {
			continue
		}
		if f.Blocks == nil || isBinding(f) || f.Signature.Recv() != nil && typeBase(derefType(f.Signature.Recv().Type())) == "fx.PendingActions" {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if calls(in, "fx.PendingActions)."+methodName(in)) && methodName(in) != "" {
					uses = true
				}
				if o, g := changed(in); o == "fx.PendingActions" && pendingFields[g] || readsPending(in) {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		n++
		for o := range t.Run(f, 0) {
			c.must(o.q&held == 0, "locked", fnName(f), "the pending actions may stay locked when the function returns")
			c.must(o.q&dirty == 0, "saved", fnName(f), "pending actions may be changed without being saved")
		}
	}
	c.must(n > 0, "locked", "users of the pending actions", "none were found")
	for in, qs := range access {
		for q := range qs {
			c.sites++
			c.must(q&held != 0, "locked", e.P.pos(in), "the pending actions are accessed without their lock")
		}
	}
	for in, qs := range again {
		for q := range qs {
			c.must(q&held == 0, "locked", e.P.pos(in), "the lock is taken although it is held already: the keyper blocks for ever")
		}
	}
	for in, qs := range free {
		for q := range qs {
			c.must(q&held != 0, "locked", e.P.pos(in), "a lock is released that is not held")
			c.must(q&dirty == 0, "saved", e.P.pos(in), "the pending actions are released before their change was saved")
		}
	}
	for f := range t.Fns {
		c.fns[f] = true
	}
}

func decodeArg(in ssa.Instruction) string {
	v := in.(ssa.CallInstruction).Common().Args[1]
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return v.Type().String()
}

func methodName(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		if f := ci.Common().StaticCallee(); f != nil {
			return f.Name()
		}
	}
	return ""
}

// checkNumbers: under which numbers actions are added and scheduled.
func (c *Ctx) checkNumbers(e *Engine) {
	add := c.method(e, "shuttermint/keyper/fx.PendingActions", "AddActions")
	if add == nil {
		return
	}
	id, list, cur := Param(1), Param(2), Fld(Param(0), "CurrentID")
	pid := polyOf(paramExpr(add.Params[1], 1))
	var next *ssa.Store
	c.walk(e, add, nil, func(s *CSite) {
		_, f := wField(s)
		switch {
		case s.Kind == "mapupdate" && f == "ActionMap":
			c.each(s, "numbers", func(a *CAlt) bool {
				k, v := strip(a.Args[0]), a.Args[1]
				if v.Op != "index" {
					return false
				}
				pos := polyOf(strip(v.Args[1]))
				l := v.Args[0]
				if l.Op == "slice" {
					if !noBound(l.Args[1]) {
						pos = pos.add(polyOf(strip(l.Args[1])), 1)
					}
					l = l.Args[0]
				}
				return list(l) && polyEq(polyOf(k), pid.add(pos, 1)) && (l == v.Args[0] || a.Facts.Le(id, cur))
			}, "an action is not added under the first number plus its position in the list")
		case s.Kind == "store" && f == "CurrentID":
			if st, ok := s.In.(*ssa.Store); ok {
				next = st
			}
			c.each(s, "numbers", func(a *CAlt) bool {
				end := pid.add(polyOf(&Expr{Op: "len", Args: []*Expr{paramExpr(add.Params[2], 2)}}), 1)
				return polyEq(polyOf(a.Args[len(a.Args)-1]), end) && a.Facts.Le(id, cur)
			}, "the next free number is not the one after those of the actions added")
		}
	})
	// the numbers returned: the first free number before and after
	if next != nil {
		for _, b := range add.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 2 || b == add.Recover {
				continue
			}
			first, end := resultVal(r, 0), resultVal(r, 1)
			if next.Block().Dominates(b) {
				ok := end == next.Val || loadsCurrent(end) && before(next, end.(ssa.Instruction))
				c.must(ok, "numbers", e.P.pos(r), "the end of the numbers returned is not the next free number")
				ok = loadsCurrent(first) && before(first.(ssa.Instruction), next)
				c.must(ok, "numbers", e.P.pos(r), "the first number returned is not the one that was free before")
			} else {
				c.must(first == end, "numbers", e.P.pos(r), "numbers are returned although nothing was added")
			}
		}
	}
	c.must(next != nil, "numbers", fnName(add), "the next free number is never changed")
	e2 := NewEngine(e.P)
	e2.Opaque = map[*ssa.Function]bool{add: true}
	// all actions are added, except for those that were added before
	for _, st := range e.Summary(add).Sites {
		if st.Kind != "mapupdate" || writeField(st.W) != "ActionMap" {
			continue
		}
		h := innermostLoop(st.In.Block())
		var l *Loop
		for _, x := range e.Summary(add).Loops {
			if x.Head == h {
				l = x
			}
		}
		if !c.must(l != nil && !leavesEarly(st.In), "numbers", e.P.pos(st.In), "not all of the actions are added") {
			continue
		}
		k := polyOf(st.Alts[0].Args[len(st.Alts[0].Args)-2])
		for i, ed := range l.Edges {
			if ed.Back {
				ok := ed.Facts.Did(Call("mapupdate:ActionMap")) || ed.Facts.PolyLt(k, polyOf(path(paramExpr(add.Params[0], 0), "CurrentID")))
				c.must(ok, "numbers", fmt.Sprintf("iteration %d of %s", i, fnName(add)), "an action is not added although it was not added before")
			}
		}
	}
	// scheduling what was added
	run := c.method(e, "shuttermint/keyper/fx.RunEnv", "RunActions")
	var sched *CSite
	c.walk(e2, run, func(f *ssa.Function, _ []*Site) bool { return f != add }, func(s *CSite) {
		if (s.Kind == "send" || s.Kind == "select") && sends(s, "fx.ActionID") {
			sched = s
		}
		if s.Kind == "call" && s.Callee == add {
			c.each(s, "scheduled", func(a *CAlt) bool { return strip(a.Args[1]).S == "$2" && a.Args[2].S == "$3" }, "other actions are added than those to be run")
		}
	})
	c.allScheduled(e2, run, sched, func(l *Loop, f *Facts) bool {
		return exists(exprsIn(f, func(x *Expr) bool { return loopVars(l, x) != nil }), func(x *Expr) bool {
			return f.Le(Ext(Is2(add), 1), Is(x)) && inductive(l, x, func(f *Facts, v *Expr) bool { return f.matchUpTo(v, Ext(Is2(add), 0)) }, func(_ *Facts, v *Expr) bool {
				return polyEq(polyOf(v), polyOf(x).add(polyConst(1), 1))
			})
		})
	}, func(f *Facts) bool { return f.Eq(Len(Param(3)), Num(0)) || !f.Did(Is2(add)) })
	load := c.method(e, "shuttermint/keyper/fx.RunEnv", "Load")
	sched = nil
	c.walk(e, load, nil, func(s *CSite) {
		if (s.Kind == "send" || s.Kind == "select") && sends(s, "fx.ActionID") {
			sched = s
		}
	})
	c.checkSorted(e, load)
	c.allScheduled(e, load, sched, func(l *Loop, f *Facts) bool {
		return f.All(Any, func(g *Facts) bool { return g.Did(Call("fx.RunEnv).scheduleAction")) })
	}, func(f *Facts) bool { return false })
}

// checkSorted: the numbers of the pending actions are sorted in ascending order before they are scheduled.
func (c *Ctx) checkSorted(e *Engine, load *ssa.Function) {
	n := 0
	for _, f := range reachable(e, load, func(g *ssa.Function) bool { return !inPkg(g, "shuttermint/keyper/fx") }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !calls(in, "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "sort.Sort") {
					continue
				}
				call := in.(*ssa.Call)
				if calls(in, "slices.Sort") {
					n++
					continue
				}
				var less *ssa.Function
				switch x := call.Call.Args[len(call.Call.Args)-1].(type) {
				case *ssa.MakeClosure:
					less, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					less = x
				case *ssa.MakeInterface:
					if calls(in, "sort.Sort") {
						ms := e.P.Prog.MethodSets.MethodSet(x.X.Type())
						for i := 0; i < ms.Len(); i++ {
							if ms.At(i).Obj().Name() == "Less" {
								less = e.P.Prog.MethodValue(ms.At(i))
							}
						}
					}
				}
				if less == nil || len(less.Params) < 2 {
					continue
				}
				n++
				k := len(less.Params) - 2
				elem := func(i int) M {
					return Or(Idx(Any, Param(i)), Param(i))
				}
				ok := true
				for _, o := range e.Summary(less).Outs {
					ok = ok && len(o.Results) == 1 && yesNo(e, o.Facts, o.Results[0], func(f *Facts) bool { return f.Lt(elem(k), elem(k+1)) || f.Le(elem(k), elem(k+1)) },
						func(f *Facts) bool { return f.Le(elem(k+1), elem(k)) || f.Lt(elem(k+1), elem(k)) })
				}
				c.must(ok, "order", "sort at "+e.P.pos(in), "the pending actions are not scheduled in the order of their numbers")
			}
		}
	}
	c.must(n > 0, "order", fnName(load), "the pending actions are not sorted by their numbers")
}

// Is2 matches calls of the function.
func Is2(fn *ssa.Function) M {
	return func(x *Expr) bool { return x != nil && x.Op == "call" && x.Fn == fn }
}

func resultVal(r *ssa.Return, i int) ssa.Value {
	v := r.Results[i]
	if u, ok := v.(*ssa.UnOp); ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			ins := r.Block().Instrs
			for k := len(ins) - 1; k >= 0; k-- {
				if st, ok := ins[k].(*ssa.Store); ok && st.Addr == al {
					return st.Val
				}
			}
		}
	}
	return v
}

func loadsCurrent(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && structType(fa.X.Type()).Field(fa.Field).Name() == "CurrentID"
}

// allScheduled: in the function, every round of the loop around the call that schedules an action schedules one,
// and the function succeeds only once the loop is over.
func (c *Ctx) allScheduled(e *Engine, fn *ssa.Function, s *CSite, over func(l *Loop, f *Facts) bool, idle func(f *Facts) bool) {
	if !c.must(s != nil, "scheduled", fnName(fn), "no action is scheduled") {
		return
	}
	path := append(append([]*Site{}, s.Path...), s.Site)
	in := path[0].In
	h := innermostLoop(in.Block())
	var l *Loop
	for _, x := range e.Summary(fn).Loops {
		if x.Head == h {
			l = x
		}
	}
	c.must(l != nil && everyIteration(in) && !leavesEarly(in), "scheduled", e.P.pos(in), "some of the actions are not scheduled")
	for _, p := range path[1:] {
		// a select without a default sends, or fails
		c.must(!avoids(p.Fn, map[*ssa.BasicBlock]bool{p.In.Block(): true}), "scheduled", e.P.pos(p.In), "the action may not be put into a queue")
	}
	if l == nil {
		return
	}
	for _, r := range e.Summary(fn).Sites {
		ret, ok := r.In.(*ssa.Return)
		if r.Kind != "return" || !ok || failedReturn(ret) {
			continue
		}
		for _, a := range r.Alts {
			if e := a.Args[len(a.Args)-1]; a.Facts.NonNil(Is(e)) {
				continue
			}
			c.must(idle(a.Facts) || over(l, a.Facts), "scheduled", e.P.pos(r.In), "the function succeeds although not all actions were scheduled")
		}
	}
}

// checkWorkers: actions are carried out one after the other, in the order in which they were put into the queue.
func (c *Ctx) checkWorkers(e *Engine, bg *ssa.Function) {
	served := map[string]int{}
	spawned := func(s *CSite) int {
		n := 0
		for _, p := range append(append([]*Site{}, s.Path...), s.Site) {
			if p.Kind == "go" || strings.HasSuffix(p.Name, "errgroup.Group).Go") || strings.HasSuffix(p.Name, "errgroup.Group).TryGo") {
				n++
			}
		}
		return n
	}
	sum := e.Summary(bg)
	c.walk(e, bg, nil, func(s *CSite) {
		if s.Kind == "call" && (nameEnds(s.Name, ".SendTX") || nameEnds(s.Name, ".SendMessage")) {
			c.must(spawned(s) == 1, "order", s.where(e.P), "actions are carried out at the same time, so that they may overtake each other")
		}
		if s.Kind != "select" || len(s.Path) == 0 {
			return
		}
		for _, a := range s.Alts[:1] {
			for i, ch := range a.Args {
				if ch.T == nil || !chanOf(ch.T, "fx.ActionID") || a.Res == nil || !Nil(a.Res.Args[i]) {
					continue
				}
				start := s.Path[0].In
				h := innermostLoop(start.Block())
				many := h != nil
				names := []string{ch.S}
				if ch.Op == "index" && ch.Args[0].Op == "list" {
					names = nil
					for _, x := range ch.Args[0].Args {
						names = append(names, x.S)
					}
					var l *Loop
					for _, x := range sum.Loops {
						if x.Head == h {
							l = x
						}
					}
					once := l != nil && everyIteration(start) && !leavesEarly(start) && inductive(l, ch.Args[1], func(_ *Facts, v *Expr) bool { return polyEq(polyOf(v), polyConst(0)) },
						func(_ *Facts, v *Expr) bool { return polyEq(polyOf(v), polyOf(ch.Args[1]).add(polyConst(1), 1)) })
					many = !once
				} else if ch.Op != "field" {
					names = []string{ch.Key()}
				}
				for _, n := range names {
					served[n]++
					if many {
						served[n]++
					}
				}
			}
		}
	})
	for _, n := range []string{"mainChainTXs", "shuttermintMessages"} {
		c.must(served[n] == 1, "order", "queue "+n, fmt.Sprintf("there is not exactly one worker for the queue (%d)", served[n]))
	}
	c.must(served["inFlightMainChainTXs"] > 0, "order", "queue inFlightMainChainTXs", "there is no worker for the queue")
}
