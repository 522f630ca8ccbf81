package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Mods: []string{"shuttermint"},
		Rule: "In all code reachable from InitChain, BeginBlock, DeliverTx, EndBlock and Commit: no clock, randomness, environment, file, network or scheduling primitive is used except for log output, the time of the last save and writing the state file; no goroutine, channel or select; every iteration over a map is order-insensitive (keyed, commutative or idempotent effects; slices sorted by a key before use; early exits carry nothing of the iteration except under a threshold condition on the entry); no path condition, written value or response depends on the node-local mempool state or persistence settings; no package-level variable is written.",
		Min:  map[string]int{"deterministic primitives": 1, "map iteration": 4, "node-local state": 10, "globals": 1},
		Run:  checkC01})
	register(&Check{ID: "C12", Mods: []string{"shuttermint"},
		Rule: "At every rename that installs a state file (chain application, keyper state, pending actions): on every path the temporary file has been created (truncated), the complete state has been encoded into it and it has been synced, each without error, and the temporary file is not the final file; every normal return of the saving function that does not report an error has renamed; the final file is never opened for writing.",
		Min:  map[string]int{"rename": 3, "complete": 3, "saved or reported": 3, "never written in place": 3},
		Run:  checkC12})
	register(&Check{ID: "C13", Mods: []string{"shuttermint"},
		Rule: "Info reports the stored height; every return of EndBlock has stored the height of the request; the application state is saved by Commit only and never while a block is executed; every loader returns without error only if the file does not exist or was decoded without error into the object it returns or installs.",
		Min:  map[string]int{"info": 1, "height": 1, "saved between blocks": 4, "load": 3},
		Run:  checkC13})
	register(&Check{ID: "C14", Mods: []string{"shuttermint"},
		Rule: "For every type whose values are written to a state file (found from the arguments of gob's Encode and Decode by closing over fields, elements and implementations of interfaces): all fields that carry state are exported or the type implements its own encoding; no function, channel or unsupported type is reachable; every repository type stored in an interface-typed field is registered with gob; what is decoded has the type of what is encoded.",
		Min:  map[string]int{"stored type": 20, "registered": 3, "same type": 3},
		Run:  checkC14})
}

func checkC01(c *Ctx) {
	e := c.shm()
	exempt := map[string]bool{} // functions that write the state file
	fns := map[*ssa.Function]bool{}
	for _, n := range []string{"InitChain", "BeginBlock", "DeliverTx", "EndBlock", "Commit"} {
		root := c.method(e, "shuttermint/app.ShutterApp", n)
		// functions that are only there to write the state file
		w := e.Walk(root, nil, func(s *CSite) {
			if n == "Commit" {
				return
			}
			stateful := s.Kind == "return" && len(s.Path) == 0 || stateSite(s) && !allFresh(s)
			if !stateful {
				return
			}
			c.each(s, "node-local state", func(a *CAlt) bool {
				bad := func(x *Expr) bool {
					return contains(x, func(y *Expr) bool {
						return Fld(checkState, "TxCounts")(y) || Fld(checkState, "NonceTracker")(y) || Fld(appP, "Gobpath")(y) || Fld(appP, "LastSaved")(y)
					})
				}
				for _, f := range a.Facts.m {
					if f.Op != "did" && f.Op != "forall" && f.mentions(func(y *Expr) bool { return bad(y) }) {
						return false
					}
				}
				for _, x := range a.Args {
					if bad(x) {
						return false
					}
				}
				return true
			}, "a state change or response depends on the node's own mempool or persistence settings")
		})
		for f := range w.fns {
			fns[f] = true
			c.fns[f] = true
		}
	}
	_ = exempt
	saving := map[*ssa.Function]bool{}
	for f := range fns {
		if reachesRename(e, f, map[*ssa.Function]bool{}) {
			saving[f] = true
		}
	}
	helpers := onlyCalledBy(e, fns, saving)
	bad := false
	nLoops, nCalls := 0, 0
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c.sites++
				// randomness as a value
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && (g.Pkg.Pkg.Path() == "crypto/rand" || g.Pkg.Pkg.Path() == "math/rand") {
						bad = true
						c.must(false, "deterministic primitives", "use of "+g.String()+" in "+fnName(f), "randomness is used while executing a block, at "+e.P.pos(in))
					}
				}
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					bad = true
					c.must(false, "deterministic primitives", fmt.Sprintf("%T in %s", in, fnName(f)), "scheduling-dependent code is reached while executing a block, at "+e.P.pos(in))
				case *ssa.Store:
					if g, ok := addrRoot(x.Addr).(*ssa.Global); ok && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
						c.must(false, "globals", "store to "+g.String()+" in "+fnName(f), "state outside of the application is changed while executing a block, at "+e.P.pos(in))
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if g, ok := addrRoot(u.X).(*ssa.Global); ok {
							c.must(false, "globals", "update of "+g.String()+" in "+fnName(f), "state outside of the application is changed while executing a block, at "+e.P.pos(in))
						}
					}
				case ssa.CallInstruction:
					src := nondetSource(x.Common().StaticCallee())
					if src == "" {
						continue
					}
					nCalls++
					if strings.HasPrefix(src, "os.") && (saving[f] || helpers[f] && x.Common().StaticCallee().Signature.Recv() != nil) {
						continue
					}
					v := x.Value()
					if v == nil {
						bad = true
						c.must(false, "deterministic primitives", src+" in "+fnName(f), "used while executing a block, at "+e.P.pos(in))
						continue
					}
					if ok, use := onlyLogged(v, map[ssa.Value]bool{}); !ok && !persistenceUse(e, saving, f, use) {
						bad = true
						c.must(false, "deterministic primitives", src+" in "+fnName(f), "used for more than log output while executing a block, at "+e.P.pos(in)+", use at "+e.P.pos(use))
					}
				}
			}
		}
		for i, l := range mapLoops(e, f) {
			nLoops++
			is := l.check()
			c.must(len(is) == 0, "map iteration", fmt.Sprintf("iteration %d in %s", i+1, fnName(f)), strings.Join(is, "; "))
		}
	}
	c.must(!bad, "deterministic primitives", fmt.Sprintf("all reachable functions"), "")
	c.must(true, "globals", "all reachable functions", "")
}

// onlyCalledBy returns the functions that are only called by the given ones, directly or not.
func onlyCalledBy(e *Engine, fns, by map[*ssa.Function]bool) map[*ssa.Function]bool {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Function); ok {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f := range fns {
			ok := len(callers[f]) > 0 && !r[f] && !by[f]
			for g := range callers[f] {
				ok = ok && (by[g] || r[g])
			}
			if ok {
				r[f], changed = true, true
			}
		}
	}
	return r
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].String() < r[i].String() || r[j].String() == r[i].String() && r[j].Pos() < r[i].Pos() {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// reachesRename: the function installs a state file (directly or through calls).
func reachesRename(e *Engine, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Rename" {
				return true
			}
			if isSource(g) && e.P.InRepo(g) && reachesRename(e, g, seen) {
				return true
			}
		}
	}
	return false
}

// persistenceUse: the value is stored as the time of the last save, or decides (in a function that
// does nothing else than saving) whether to save.
func persistenceUse(e *Engine, saving map[*ssa.Function]bool, f *ssa.Function, use ssa.Instruction) bool {
	switch x := use.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			return structType(fa.X.Type()).Field(fa.Field).Name() == "LastSaved"
		}
		return false
	case *ssa.If:
		return saving[f] || onlyReads(e, f)
	case *ssa.Return:
		return onlyReads(e, f) || saving[f]
	}
	return saving[f]
}

// onlyReads: the function writes nothing.
func onlyReads(e *Engine, f *ssa.Function) bool { return !e.P.Impure(f) }

// ---- C12 ----

type saver struct {
	name string
	root string
	full func(x *Expr, a *CAlt) bool // the encoded object is the complete state
}

func savers() []saver {
	return []saver{
		{"chain application", shapp + "PersistToDisk", func(x *Expr, a *CAlt) bool { return Param(0)(x) }},
		{"keyper", "(*shuttermint/keyper.Keyper).saveState", func(x *Expr, a *CAlt) bool {
			f := structFields(x)
			if f == nil {
				return false
			}
			for _, n := range []string{"Shutter", "MainChain"} {
				if f[n] == nil || !contains(f[n], func(y *Expr) bool { return y.Op == "field" && y.S == n }) {
					return false
				}
			}
			return f["State"] != nil && Fld(Param(0), "State")(f["State"])
		}},
		{"pending actions", "(*shuttermint/keyper/fx.PendingActions).save", func(x *Expr, a *CAlt) bool { return Param(0)(x) }},
	}
}

func isCreate(f M) M {
	return Or(Call("os.Create", f), And(Call("os.OpenFile", f), func(e *Expr) bool { return true }))
}

func checkC12(c *Ctx) {
	e := c.shm()
	renames := 0
	for _, sv := range savers() {
		sv := sv
		root := c.Func(e, sv.root)
		c.walk(e, root, nil, func(s *CSite) {
			if s.Kind == "call" && nameEnds(s.Name, "os.Rename") {
				renames++
				c.each(s, "rename", func(a *CAlt) bool {
					tmp, final := a.Args[0], a.Args[1]
					if tmp.Key() == final.Key() {
						return false
					}
					// next to the state file: not shared between nodes, and on the same file system
					if findExpr(final, func(x *Expr) bool { return (x.Op == "field" || x.Op == "param" && x.S != "$0") && contains(tmp, Is(x)) }) == nil {
						return false
					}
					for _, f := range a.Facts.m {
						if f.Op != "did" || !isCreate(Is(tmp))(f.A[0]) {
							continue
						}
						cr := f.A[0]
						file := Or(Ext(Is(cr), 0))
						if cr.S == "os.OpenFile" && !openTruncates(cr) {
							continue
						}
						if !a.Facts.IsNil(Ext(Is(cr), 1)) {
							continue
						}
						sync := Call(".Sync", file)
						if !a.Facts.Did(sync) || !a.Facts.IsNil(sync) {
							continue
						}
						enc := Call(".Encode", Call("gob.NewEncoder", Sub(file)))
						if a.Facts.Did(enc) && a.Facts.IsNil(enc) {
							return true
						}
						// through a buffer
						wr := Call(".Write", file)
						if a.Facts.Did(wr) && a.Facts.IsNil(Ext(wr, 1)) && a.Facts.Did(Call(".Encode", Call("gob.NewEncoder"))) {
							return true
						}
					}
					return false
				}, "a state file is installed although it may not have been completely written and synced to disk")
				c.each(s, "complete", func(a *CAlt) bool {
					return a.Facts.Did(func(x *Expr) bool {
						return Call(".Encode", Call("gob.NewEncoder"))(x) && len(x.Args) > 1 && sv.full(unaddr(x.Args[1]), a)
					})
				}, "the file does not contain the complete state")
			}
			if s.Kind == "call" && (nameEnds(s.Name, "os.Create") || nameEnds(s.Name, "os.OpenFile") || nameEnds(s.Name, "os.WriteFile") || nameEnds(s.Name, "ioutil.WriteFile") || nameEnds(s.Name, "os.Remove") || nameEnds(s.Name, "os.Truncate")) {
				c.each(s, "never written in place", func(a *CAlt) bool {
					return contains(a.Args[0], func(x *Expr) bool {
						return x.Op == "const" && strings.HasPrefix(x.S, "\"") && strings.Trim(x.S, "\"") != ""
					})
				}, "the state file itself is opened for writing or removed: a crash leaves it incomplete")
			}
			if s.Kind == "return" && len(s.Path) == 0 {
				c.each(s, "saved or reported", func(a *CAlt) bool {
					rn := Call("os.Rename")
					if len(a.Args) == 0 {
						return a.Facts.Did(rn) && a.Facts.IsNil(rn)
					}
					r := a.Args[len(a.Args)-1]
					if rn(r) || rn(unwrap(r)) {
						return true
					}
					if r.Op == "nil" || a.Facts.IsNil(Is(r)) {
						return a.Facts.Did(rn) && a.Facts.IsNil(rn)
					}
					return nonNil(r) || a.Facts.NonNil(Is(r)) || a.Facts.NonNil(Is(wrapped(r)))
				}, "saving reports success although the state may not have been installed")
			}
		})
	}
	// nobody else writes these files
	for _, f := range e.P.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "os" || g.Name() != "Rename" {
					continue
				}
				c.fns[f] = true
			}
		}
	}
}

// openTruncates: os.OpenFile is called with O_CREATE and O_TRUNC.
func openTruncates(x *Expr) bool {
	if len(x.Args) < 2 {
		return false
	}
	n, ok := smallInt(x.Args[1])
	return ok && n&0x240 == 0x240
}

func unaddr(e *Expr) *Expr { return e }

// unwrap strips error wrapping.
func unwrap(e *Expr) *Expr {
	if e == nil {
		return e
	}
	if w := wrapped(e); w != nil {
		return w
	}
	return e
}

// ---- C13 ----

func checkC13(c *Ctx) {
	e := c.shm()
	c.walk(e, c.method(e, "shuttermint/app.ShutterApp", "Info"), nil, func(s *CSite) {
		if s.Kind == "return" && len(s.Path) == 0 {
			c.each(s, "info", func(a *CAlt) bool {
				f := structFields(a.Args[0])
				return f != nil && f["LastBlockHeight"] != nil && Fld(appP, "LastBlockHeight")(strip(f["LastBlockHeight"]))
			}, "Info does not report the height of the stored state")
		}
	})
	c.walk(e, c.method(e, "shuttermint/app.ShutterApp", "EndBlock"), nil, func(s *CSite) {
		if s.Kind == "return" && len(s.Path) == 0 {
			c.each(s, "height", func(a *CAlt) bool {
				return a.Facts.Did(Call("store:LastBlockHeight", Any, Strip(Fld(Param(1), "Height")))) || a.Facts.Eq(Fld(appP, "LastBlockHeight"), Fld(Param(1), "Height"))
			}, "a block may end without its height being stored")
		}
	})
	for _, n := range []string{"InitChain", "BeginBlock", "DeliverTx", "EndBlock", "CheckTx", "Commit"} {
		n := n
		c.walk(e, c.method(e, "shuttermint/app.ShutterApp", n), nil, func(s *CSite) {
			o, fld := wField(s)
			if s.Kind == "store" && o == "app.ShutterApp" && fld == "LastBlockHeight" {
				c.must(n == "EndBlock", "height", "store at "+s.where(e.P), "the height is changed outside of the end of a block")
			}
		})
		if n == "Commit" {
			continue
		}
		c.must(!reachesRename(e, c.method(e, "shuttermint/app.ShutterApp", n), map[*ssa.Function]bool{}), "saved between blocks", n, "the state is saved while a block is being executed, when its height does not match")
	}
	c.must(reachesRename(e, c.Func(e, shapp+"Commit"), map[*ssa.Function]bool{}), "saved between blocks", "Commit", "the state is never saved")

	// loaders
	for _, ld := range []struct{ name, fn string }{
		{"chain application", "shuttermint/app.LoadShutterAppFromFile"},
		{"keyper", "(*shuttermint/keyper.Keyper).LoadState"},
		{"pending actions", "(*shuttermint/keyper/fx.PendingActions).Load"},
	} {
		c.walk(e, c.Func(e, ld.fn), nil, func(s *CSite) {
			if s.Kind != "return" || len(s.Path) > 0 {
				return
			}
			c.each(s, "load", func(a *CAlt) bool {
				r := a.Args[len(a.Args)-1]
				if nonNil(r) || a.Facts.NonNil(Is(r)) || wrapped(r) != nil && a.Facts.NonNil(Is(wrapped(r))) {
					return true
				}
				open := Or(Call("os.Open"), Call("os.OpenFile"), Call("os.ReadFile"), Call("ioutil.ReadFile"))
				notExist := a.Facts.True(Call("os.IsNotExist", Ext(open, 1))) || a.Facts.True(Call("errors.Is", Ext(open, 1)))
				dec := Call(".Decode", Call("gob.NewDecoder"))
				decoded := a.Facts.Did(dec) && (a.Facts.IsNil(dec) || dec(r) || dec(unwrap(r)))
				return notExist || decoded
			}, "loading reports success although the stored state may not have been read")
		})
	}
}

// ---- C14 ----

func checkC14(c *Ctx) {
	e := c.shm()
	p := e.P
	type pair struct{ enc, dec map[string]types.Type }
	roots := map[string]types.Type{}
	sites := map[string]*pair{}
	registered := map[string]bool{}
	for _, f := range p.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/gob" {
					continue
				}
				args := ci.Common().Args
				switch g.Name() {
				case "Encode", "Decode":
					t := valueType(args[len(args)-1])
					if t == nil {
						continue
					}
					pk := pkgOf(f)
					if !strings.Contains(pk, "/app") && !strings.Contains(pk, "/keyper") {
						continue
					}
					if sites[pk] == nil {
						sites[pk] = &pair{map[string]types.Type{}, map[string]types.Type{}}
					}
					k := types.TypeString(t, nil)
					if g.Name() == "Encode" {
						sites[pk].enc[k] = t
					} else {
						sites[pk].dec[k] = t
					}
					roots[k] = t
					c.fns[f] = true
					c.sites++
				case "Register", "RegisterName":
					for _, v := range sourcesOf(p, args[len(args)-1]) {
						registered[types.TypeString(v.Type(), nil)] = true
					}
					c.sites++
				}
			}
		}
	}
	for pk, s := range sites {
		for k := range s.enc {
			c.must(s.dec[k] != nil, "same type", pk+": "+k, "a state file is written with this type but read with another")
		}
		for k := range s.dec {
			c.must(s.enc[k] != nil, "same type", pk+": "+k, "a state file is read as this type but written with another")
		}
	}
	// closure over the stored types
	seen := map[string]bool{}
	type item struct {
		t   types.Type
		via string
	}
	var work []item
	for k, t := range roots {
		work = append(work, item{t, k})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := types.TypeString(it.t, nil)
		if seen[k] {
			continue
		}
		seen[k] = true
		n, _ := types.Unalias(it.t).(*types.Named)
		if n != nil && n.Obj().Pkg() != nil {
			if hasOwnEncoding(p, n) {
				c.must(true, "stored type", k, "")
				continue
			}
		}
		switch u := it.t.Underlying().(type) {
		case *types.Pointer:
			work = append(work, item{u.Elem(), it.via})
		case *types.Slice:
			work = append(work, item{u.Elem(), it.via})
		case *types.Array:
			work = append(work, item{u.Elem(), it.via})
		case *types.Map:
			work = append(work, item{u.Key(), it.via}, item{u.Elem(), it.via})
		case *types.Chan, *types.Signature:
			c.must(false, "stored type", it.via, "contains a value that cannot be stored: "+k)
		case *types.Interface:
			if n == nil || n.Obj().Pkg() == nil || !p.InRepoPkg(n.Obj().Pkg()) {
				continue
			}
			for _, impl := range p.Implementations(u) {
				ik := types.TypeString(impl, nil)
				pt := types.TypeString(types.NewPointer(impl), nil)
				c.must(registered[ik] || registered[pt], "registered", ik, "is stored in "+it.via+" as a "+k+" but not registered with gob: saving the state fails")
				work = append(work, item{impl, ik})
			}
		case *types.Struct:
			own := n != nil && n.Obj().Pkg() != nil && p.InRepoPkg(n.Obj().Pkg())
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() {
					if own && carriesState(f.Type()) && !exemptField(n, f) {
						c.must(false, "stored type", k+"."+f.Name(), "the field is not exported and is lost when the state is saved (reached via "+it.via+")")
					}
					continue
				}
				if _, ok := f.Type().Underlying().(*types.Signature); ok {
					continue // gob ignores it
				}
				via := f.Name()
				if n != nil {
					via = n.Obj().Name() + "." + f.Name()
				}
				work = append(work, item{f.Type(), via})
			}
			c.must(true, "stored type", k, "")
		}
	}
}

// exemptField lists the unexported fields that are not state: where the file is, and the lock.
func exemptField(n *types.Named, f *types.Var) bool {
	return n.Obj().Name() == "PendingActions" && f.Name() == "path"
}

func carriesState(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "context", "log":
			return false
		}
	}
	switch t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return false
	}
	return true
}

// valueType is the type of the value behind an interface argument, without pointers.
func valueType(v ssa.Value) types.Type {
	t := valueType2(v)
	for t != nil {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
	return nil
}

func valueType2(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return x.X.Type()
	case *ssa.ChangeInterface:
		return valueType2(x.X)
	}
	if types.IsInterface(v.Type()) {
		return nil
	}
	return v.Type()
}

func hasOwnEncoding(p *Program, n *types.Named) bool {
	for _, m := range []string{"GobEncode", "MarshalBinary", "MarshalText"} {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					return true
				}
			}
		}
	}
	return false
}
