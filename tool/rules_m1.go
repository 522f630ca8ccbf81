package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the batch configs of the main chain: reading, computing with and writing them.

func init() {
	register(&Check{ID: "C42", Mods: []string{"shuttermint"},
		Rule: "Where a config is read, on every successful return each setting is the one of that name returned by the contract for the index asked for, with the options given, and its keypers are the list read from the contract without duplicates; the loops that read the keypers go from 0 on, one by one, up to the number in the contract, append what they read in every iteration and fail if a query fails. Where the next config is written, every path to a successful return passes, for each setting, either the equal edge of a comparison of the new value with the stored one, or the call that sets it, with the new value; the keypers are compared with the list as it is stored, and are all removed before the new ones are added; every transaction is added to the batch. The conversions between batch indexes and block numbers return the polynomials that define them, under the conditions under which they are defined. A config is accepted from a file only with 0 < threshold ≤ number of keypers and a selector of 4 bytes, and every setting that is encoded specially is decoded.",
		Min:  map[string]int{"read setting": 24, "read keypers": 6, "distinct": 3, "written": 12, "setter": 13, "batched": 13, "conversion": 7, "accepted": 4},
		Run: func(c *Ctx) {
			e := c.shm()
			c.configReads(e, "GetConfigByIndex", "ConfigForConfigIndex", "ConfigNumKeypers", "ConfigKeypers")
			c.configReads(e, "GetNextConfig", "NextConfig", "NextConfigNumKeypers", "NextConfigKeypers")
			c.distinct(e)
			c.configWrites(e)
			c.configMath(e)
			c.configFile(e)
		}})
}

const cfgContract = "shuttermint/contract.ConfigContract"

// batchConfigFields returns the names of the settings of a config.
func batchConfigFields(e *Engine) []string {
	var r []string
	for _, p := range e.P.Prog.AllPackages() {
		if !strings.HasSuffix(p.Pkg.Path(), contractPkg) {
			continue
		}
		if t, ok := p.Members["BatchConfig"].(*ssa.Type); ok {
			if st, ok := t.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Exported() {
						r = append(r, st.Field(i).Name())
					}
				}
			}
		}
	}
	sort.Strings(r)
	return r
}

// allTrue: V is a variable that is true after a loop only if the fact held in every iteration.
func allTrue(e *Engine, fn *ssa.Function, V *Expr, fact func(f *Facts) bool) bool {
	if V = localVar(V); V == nil {
		return false
	}
	for _, l := range e.Summary(fn).Loops {
		if inductive(l, V, func(f *Facts, v *Expr) bool { return K("true")(v) }, func(f *Facts, v *Expr) bool {
			if K("false")(v) {
				return true
			}
			if !f.True(Is(V)) && v.Key() != V.Key() {
				return false
			}
			g := f
			if !K("true")(v) && v.Key() != V.Key() {
				g = f.add(lit(v, true))
			}
			return g != nil && fact(g)
		}) {
			return true
		}
	}
	return false
}

// localized is an expression in terms of the variables as their functions know them.
func localized(x *Expr) *Expr {
	if x == nil || x.Op == "param" || x.Op == "const" {
		return x
	}
	y := &Expr{Op: x.Op, S: x.S, Site: x.Site, Obj: x.Obj, Fn: x.Fn, T: x.T}
	if x.Op == "phi" || x.Op == "opaque" {
		y.Site = ""
	}
	for _, a := range x.Args {
		y.Args = append(y.Args, localized(a))
	}
	if x.Fields != nil {
		y.Fields = map[string]*Expr{}
		for k, v := range x.Fields {
			y.Fields[k] = localized(v)
		}
	}
	return y
}

// configArgs: the call is for the config that the root function was asked for.
func configArgs(call *Expr, extra int) bool {
	n := len(call.Args)
	opts := Param(1)
	if !strings.Contains(call.S, "NextConfig") {
		return n >= 2+extra && opts(call.Args[n-2-extra]) && Strip(Param(2))(call.Args[n-1-extra])
	}
	return n >= 1+extra && opts(call.Args[n-1-extra])
}

// configReads: a config is read completely.
func (c *Ctx) configReads(e *Engine, getter, query, num, elem string) {
	root := c.method(e, cfgContract, getter)
	if root == nil {
		return
	}
	// the keypers
	own := func(f *ssa.Function, p []*Site) bool { return !isBinding(f) }
	lists := map[string]bool{}
	isElem := Call("." + elem)
	fns := map[*ssa.Function]bool{}
	nElem := 0
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind == "call" && strings.HasSuffix(s.Name, "."+elem) {
			nElem++
			where := s.where(e.P)
			c.each(s, "read keypers", func(a *CAlt) bool {
				return configArgs(&Expr{Op: "call", S: s.Name, Args: a.Args}, 1)
			}, "the keypers are read from another config, or with other options")
			frames := append(append([]*Site{}, s.Path...), s.Site)
			for _, a := range s.Alts {
				i := localized(strip(a.Args[len(a.Args)-1]))
				ok := false
				loops := s.Fn
				for k, x := range frames {
					for _, lp := range e.Summary(x.Fn).Loops {
						if lp.Body[x.In.Block()] && inductive(lp, i, func(f *Facts, v *Expr) bool { return Num(0)(strip(v)) }, func(f *Facts, v *Expr) bool {
							return polyEq(polyOf(v), polyOf(i).add(polyConst(1), 1))
						}) {
							ok = true
							loops = x.Fn
							for _, y := range frames[k:] {
								ok = ok && everyIteration(y.In)
							}
							for _, ed := range lp.Edges {
								if ed.Back {
									ok = ok && (ed.Facts.IsNil(Ext(isElem, 1)) || ed.Facts.IsNil(Ext(func(y *Expr) bool { return y.Op == "call" || y.Op == "dyncall" }, 1)))
								}
							}
						}
					}
				}
				c.must(ok, "read keypers", "index at "+where, "the keypers are not read one by one from the first on")
				fns[loops] = true
				c.ends(e, loops, loops.Blocks[0], func(w string, f *Facts) {
					isNum := Or(Ext(Call("."+num), 0), Strip(Ext(Call("."+num), 0)), func(x *Expr) bool { return x.Op == "param" })
					ok := f.Le(isNum, Strip(Is(i))) || f.Le(Len(Any), Strip(Is(i))) || f.All(isNum, func(*Facts) bool { return true })
					c.must(ok, "read keypers", "end in "+fnName(loops), "the function succeeds although not all keypers were read: "+w)
				})
			}
		}
		// what is read is kept
		keep := func(v *Expr, f *Facts) bool { return Ext(isElem, 0)(v) }
		switch {
		case s.Kind == "call" && s.Name == "append" && len(s.Alts) > 0 && len(s.Alts[0].Args) == 2:
			l := s.Alts[0].Args[1]
			if l.Op == "list" && len(l.Args) == 1 && Ext(isElem, 0)(l.Args[0]) {
				lists[s.Alts[0].Args[0].Key()] = true
				c.each(s, "read keypers", func(a *CAlt) bool {
					return a.Args[1].Op == "list" && len(a.Args[1].Args) == 1 && keep(a.Args[1].Args[0], a.Facts)
				}, "a keyper is added although it could not be read")
				c.must(everyIteration(s.In), "read keypers", "every keyper at "+s.where(e.P), "some keypers are left out")
			}
		case s.Kind == "store" && len(s.Alts) > 0 && s.Alts[0].Target != nil && s.Alts[0].Target.Op == "index" && len(s.Alts[0].Args) > 0 && Ext(isElem, 0)(s.Alts[0].Args[0]):
			lists[s.Alts[0].Target.Args[0].Key()] = true
			c.each(s, "read keypers", func(a *CAlt) bool {
				call := a.Args[0].Args[0]
				return keep(a.Args[0], a.Facts) && strip(a.Target.Args[1]).Key() == strip(call.Args[len(call.Args)-1]).Key()
			}, "a keyper is not put in its place")
			c.must(everyIteration(s.In), "read keypers", "every keyper at "+s.where(e.P), "some keypers are left out")
		}
	})
	c.must(nElem > 0 && len(lists) > 0, "read keypers", getter, "the keypers are not read")
	for fn := range fns {
		if fn == root {
			continue
		}
		c.returns(e, fn, "read keypers", func(a *CAlt) bool {
			last := a.Args[len(a.Args)-1]
			if isPanic(a.Args[0]) || isErrType(last) && !Nil(last) {
				return true
			}
			x := a.Args[0]
			return x.Op != "slice" && !isAppend(x)
		}, "what is returned is not the list of the keypers read")
	}
	dedup := false
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind == "call" && strings.HasSuffix(s.Name, "medley.DedupAddresses") {
			dedup = true
			c.each(s, "distinct", func(a *CAlt) bool { return lists[a.Args[0].Key()] }, "what is freed of duplicates is not the list of the keypers")
		}
	})
	// the settings
	isQuery := Call("." + query)
	c.returns(e, root, "config", func(a *CAlt) bool { return true }, "")
	n := 0
	for _, o := range e.Summary(root).Outs {
		if len(o.Results) != 2 || !Nil(o.Results[1]) {
			continue
		}
		n++
		for _, x := range batchConfigFields(e) {
			v := sel(o.Results[0], x)
			if x == "Keypers" {
				ok := strings.Contains(v.Key(), "medley.DedupAddresses") && dedup
				c.must(ok, "distinct", getter, "the keypers of the config may contain duplicates")
				continue
			}
			ok := Fld(Ext(isQuery, 0), x)(v) && configArgs(v.Args[0].Args[0], 0) && o.Facts.IsNil(Ext(Is(v.Args[0].Args[0]), 1))
			c.must(ok, "read setting", getter+" "+x, "the setting is not the one of the config asked for: "+short(v))
		}
	}
	c.must(n > 0, "read setting", getter, "configs are never read")
}

// distinct: the list without duplicates has every element once.
func (c *Ctx) distinct(e *Engine) {
	fn := c.pkgFunc(e, "shuttermint/medley.DedupAddresses")
	if fn == nil {
		return
	}
	elem := Idx(Param(0), Any)
	for _, o := range e.Summary(fn).Outs {
		if len(o.Results) != 1 {
			continue
		}
		V := o.Results[0]
		if Nil(V) || V.Op == "list" && len(V.Args) == 0 {
			c.must(o.Facts.Eq(Len(Param(0)), Num(0)), "distinct", fnName(fn), "elements are lost")
			continue
		}
		var seen *Expr
		l, _, why := comprehension(e, V, func(f *Facts) bool {
			return f.True(func(x *Expr) bool { return (x.Op == "has" || x.Op == "index") && elem(x.Args[1]) })
		}, func(f *Facts, x *Expr) bool {
			return elem(x) && (exists(f.dids(Call("absent", Any, Is(x))), func(d *Expr) bool { seen = d.Args[0]; return true }) || f.True(func(y *Expr) bool {
				return (y.Op == "has" || y.Op == "index") && y.Args[1].Key() == x.Key()
			}))
		})
		_ = seen
		c.must(l != nil, "distinct", fnName(fn), "the result is not the list without its duplicates: "+why)
	}
	// an element is added only if it was not seen before, and is then marked as seen
	c.walk(e, fn, nil, func(s *CSite) {
		if s.Kind == "mapupdate" {
			c.each(s, "distinct", func(a *CAlt) bool {
				return elem(a.Args[0]) && (a.Facts.NotHas(Any, Is(a.Args[0])) || K("true")(a.Args[1]) && a.Facts.False(Idx(Any, Is(a.Args[0]))))
			}, "an element is marked as seen twice")
			for _, b := range s.Fn.Blocks {
				for _, in := range b.Instrs {
					if call := asAppend(in); call != nil {
						c.must((follows(s.In, in, false) || follows(in, s.In, false)) && (b == s.In.Block() || s.In.Block().Dominates(b) || b.Dominates(s.In.Block())), "distinct", "append in "+fnName(fn), "elements are added although they were seen before, or marked without being added")
					}
				}
			}
		}
	})
}

func asAppend(in ssa.Instruction) *ssa.Call {
	v, ok := in.(ssa.Value)
	if !ok {
		return nil
	}
	return isAppendCall(v)
}

// ---- writing ----

// settingOf returns the field of a config that a value is, and the config.
func settingOf(v ssa.Value) (string, ssa.Value) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldName(fa.X.Type(), fa.Field), fa.X
		}
	case *ssa.Field:
		return fieldName(x.X.Type(), x.Field), x.X
	case *ssa.ChangeType:
		return settingOf(x.X)
	}
	return "", nil
}

// equalEdge: the block ends in a comparison of the setting in two configs; it returns the successor for equality.
func equalEdge(b *ssa.BasicBlock, x string) *ssa.BasicBlock {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cond, neg := i.Cond, false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	var a, d ssa.Value
	switch y := cond.(type) {
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ {
			return nil
		}
		if y.Op == token.NEQ {
			neg = !neg
		}
		a, d = y.X, y.Y
	case *ssa.Call:
		if len(y.Call.Args) != 2 || y.Call.StaticCallee() == nil || !strings.Contains(strings.ToLower(y.Call.StaticCallee().Name()), "equal") {
			return nil
		}
		a, d = y.Call.Args[0], y.Call.Args[1]
		if x == "Keypers" {
			// which list it is compared with is checked elsewhere
			n1, _ := settingOf(unwrapIface(a))
			n2, _ := settingOf(unwrapIface(d))
			if n1 != x && n2 != x {
				return nil
			}
			if neg {
				return b.Succs[1]
			}
			return b.Succs[0]
		}
	default:
		return nil
	}
	n1, c1 := settingOf(unwrapIface(a))
	n2, c2 := settingOf(unwrapIface(d))
	if n1 != x || n2 != x || c1 == c2 {
		return nil
	}
	if neg {
		return b.Succs[1]
	}
	return b.Succs[0]
}

func unwrapIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// writes: the function succeeds only after the setting was compared and found equal, or set by one of the calls.
func writes(fn *ssa.Function, x string, setters []string, busy map[*ssa.Function]bool) bool {
	if fn.Blocks == nil || busy[fn] {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	sets := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		if f := call.Call.StaticCallee(); f != nil {
			for _, s := range setters {
				if f.Name() == s {
					return true
				}
			}
			if f.Pkg == fn.Pkg && !isBinding(f) {
				return writes(f, x, setters, busy)
			}
			return false
		}
		// a method value
		for _, a := range append([]ssa.Value{call.Call.Value}, call.Call.Args...) {
			if m, ok := a.(*ssa.MakeClosure); ok {
				for _, s := range setters {
					if strings.HasPrefix(m.Fn.Name(), s+"$bound") {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad func(b *ssa.BasicBlock) bool
	bad = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if sets(in) {
				return false
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return !failedReturn(r)
		}
		eq := equalEdge(b, x)
		for _, s := range b.Succs {
			if s == eq && b.Succs[0] != b.Succs[1] {
				continue
			}
			if bad(s) {
				return true
			}
		}
		return false
	}
	return !bad(fn.Blocks[0])
}

func (c *Ctx) configWrites(e *Engine) {
	root := c.method(e, cfgContract, "SetNextBatchConfig")
	if root == nil {
		return
	}
	own := func(f *ssa.Function, p []*Site) bool { return !isBinding(f) }
	newbc := Param(3)
	opts := Fld(Param(2), "TransactOpts")
	// method values: a table of setters
	tables := map[string]bool{}
	for _, f := range e.P.Functions() {
		if f != root && f.Parent() != root && f.Pkg != root.Pkg || isBinding(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					tables[strings.TrimSuffix(m.Fn.Name(), "$bound")] = true
				}
			}
		}
	}
	stored := map[string]bool{}
	nSet := map[string]int{}
	var remove, add []*CSite
	nAdd := 0
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind != "call" {
			return
		}
		base := s.Name[strings.LastIndex(s.Name, ".")+1:]
		switch {
		case s.Name == "append" && len(s.Alts) > 0 && len(s.Alts[0].Args) == 2:
			l := s.Alts[0].Args[1]
			if l.Op == "list" && len(l.Args) == 1 && Ext(Call(".NextConfigKeypers"), 0)(l.Args[0]) {
				stored[s.Alts[0].Args[0].Key()] = true
			}
		case base == "NextConfigAddKeypers":
			add = append(add, s)
			nSet["Keypers"]++
			c.each(s, "setter", func(a *CAlt) bool {
				return len(a.Args) == 3 && opts(a.Args[1]) && Fld(newbc, "Keypers")(a.Args[2])
			}, "the keypers added are not those of the new config")
		case base == "NextConfigRemoveKeypers":
			remove = append(remove, s)
		case strings.HasPrefix(base, "NextConfigSet"):
			x := strings.TrimPrefix(base, "NextConfigSet")
			nSet[x]++
			c.each(s, "setter", func(a *CAlt) bool {
				return len(a.Args) == 3 && opts(a.Args[1]) && Fld(newbc, x)(strip(a.Args[2]))
			}, "the value set is not the one of the new config, or the transaction is not sent with the options of the batch")
		case strings.HasSuffix(s.Name, "txbatch.TXBatch).Add"):
			nAdd++
			c.each(s, "batched", func(a *CAlt) bool {
				t := a.Args[1]
				return Param(2)(a.Args[0]) && (Ext(func(x *Expr) bool {
					return x.Op == "call" && (strings.Contains(x.S, ".NextConfigSet") || strings.Contains(x.S, ".NextConfigAddKeypers") || strings.Contains(x.S, ".NextConfigRemoveKeypers"))
				}, 0)(t) && a.Facts.IsNil(Ext(Is(t.Args[0]), 1)) || t.Op == "param" || t.Op == "opaque" || t.Op == "call")
			}, "what is added to the batch is not the transaction that was created without an error")
		}
	})
	c.walk(e, root, own, func(s *CSite) {
		if s.Kind == "call" && len(s.Site.Args) == 2 && strings.Contains(strings.ToLower(s.Name), "equal") {
			if !Fld(newbc, "Keypers")(s.Alts[0].Args[0]) && !Fld(newbc, "Keypers")(s.Alts[0].Args[1]) {
				return
			}
			if s.Callee != nil && s.Callee.Pkg == root.Pkg {
				c.listEquality(e, s.Callee)
			}
			c.each(s, "written", func(a *CAlt) bool { return stored[a.Args[0].Key()] || stored[a.Args[1].Key()] },
				"the new keypers are not compared with the list that is stored in the contract")
		}
	})
	for _, s := range remove {
		c.each(s, "setter", func(a *CAlt) bool {
			n := strip(a.Args[len(a.Args)-1])
			all := Ext(Call(".NextConfigNumKeypers"), 0)(n) || n.Op == "len" && stored[n.Args[0].Key()]
			return opts(a.Args[1]) && all
		}, "not all the keypers stored in the contract are removed")
	}
	for _, s := range add {
		ok := false
		for _, r := range remove {
			if r.Fn == s.Fn {
				ok = ok || r.In.Block() == s.In.Block() && before(r.In, s.In) || r.In.Block() != s.In.Block() && r.In.Block().Dominates(s.In.Block())
			} else {
				ok = true
			}
		}
		c.must(ok, "written", "old keypers before "+s.where(e.P), "the old keypers stay in the list")
	}
	for _, x := range batchConfigFields(e) {
		setters := []string{"NextConfigSet" + x}
		if x == "Keypers" {
			setters = []string{"NextConfigAddKeypers"}
		}
		if nSet[x] == 0 && tables[setters[0]] {
			c.must(true, "written", x, "")
			continue
		}
		c.must(writes(root, x, setters, map[*ssa.Function]bool{}), "written", x, "the config may be taken as written although this setting was not")
	}
	c.must(nAdd > 0, "batched", fnName(root), "no transactions are added to the batch")
	c.batched(e, root.Pkg)
}

// listEquality: the function returns true only for lists that are equal.
func (c *Ctx) listEquality(e *Engine, fn *ssa.Function) {
	same := func(f *Facts) bool { return f.Eq(Idx(Param(0), Any), Idx(Param(1), Any)) }
	lens := func(f *Facts) bool { return f.Eq(Len(Param(0)), Len(Param(1))) }
	visited := func(f *Facts, p func(*Facts) bool) bool {
		return f.All(Or(Param(0), Param(1)), p) || f.Eq(Len(Param(0)), Num(0)) || f.Eq(Len(Param(1)), Num(0))
	}
	// a variable that is true only if all elements are equal
	flag := false
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if p, ok := r.Results[0].(*ssa.Phi); ok {
			for _, l := range e.Summary(fn).Loops {
				if l.Head == p.Block() && len(l.Edges) > 0 {
					for k := range l.Edges[0].Vals {
						if strings.HasSuffix(k, "."+p.Name()) {
							flag = flag || allTrue(e, fn, &Expr{Op: "phi", S: strings.TrimPrefix(k, "phi#")}, same)
						}
					}
				}
			}
		}
	}
	for _, o := range e.Summary(fn).Outs {
		v, f := o.Results[0], o.Facts
		ok := yesNo(e, f, v, func(f *Facts) bool { return lens(f) && visited(f, same) }, func(f *Facts) bool { return true }) ||
			lens(f) && visited(f, func(*Facts) bool { return true }) && flag
		c.must(ok, "written", "result of "+fnName(fn), "lists are taken as equal although they are not: "+short(v))
	}
}

// batched: a transaction that was created with the options of a batch is added to it.
func (c *Ctx) batched(e *Engine, pkg *ssa.Package) {
	for _, f := range e.P.Functions() {
		if f.Pkg != pkg || isBinding(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !batchOpts(call) {
					continue
				}
				c.must(addedToBatch(call), "batched", "transaction at "+e.P.pos(in), "the transaction is not added to the batch, so its nonce is used again and nobody waits for it")
			}
		}
	}
}

// batchOpts: a transaction is created with the options of a batch.
func batchOpts(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil || !isBinding(f) && !resultTx(call.Type()) {
		return false
	}
	if !resultTx(call.Type()) {
		return false
	}
	for _, a := range call.Call.Args {
		if n, of := settingOf(a); n == "TransactOpts" && strings.HasSuffix(typeBase(of.Type()), "txbatch.TXBatch") {
			return true
		}
	}
	return false
}

func resultTx(t types.Type) bool {
	tu, ok := t.(*types.Tuple)
	if !ok {
		return typeBase(t) == "types.Transaction"
	}
	for i := 0; i < tu.Len(); i++ {
		if typeBase(tu.At(i).Type()) == "types.Transaction" {
			return true
		}
	}
	return false
}

// addedToBatch: on every way from the call to a successful return the transaction is handed on.
func addedToBatch(call *ssa.Call) bool {
	txs := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if txs[v] {
			return
		}
		txs[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				follow(x)
			case *ssa.Extract:
				if typeBase(x.Type()) == "types.Transaction" {
					follow(x)
				}
			case *ssa.Store:
				// a variable
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, q := range *al.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok {
							follow(u)
						}
					}
				}
			}
		}
	}
	if call.Referrers() == nil {
		return false
	}
	follow(call)
	uses := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range r.Results {
					if txs[v] {
						return true
					}
				}
			}
			return false
		}
		name := ""
		if f := c.Call.StaticCallee(); f != nil {
			name = f.RelString(nil)
		}
		if name == "" || strings.HasSuffix(name, "txbatch.TXBatch).Add") || !strings.Contains(name, "ethereum") {
			for _, a := range c.Call.Args {
				if txs[a] {
					return true
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad func(b *ssa.BasicBlock, from int) bool
	bad = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if uses(in) {
				return false
			}
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return !failedReturn(r)
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if bad(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := call.Block()
	for i, in := range b.Instrs {
		if in == call {
			return !bad(b, i+1)
		}
	}
	return false
}

// ---- computing ----

func (c *Ctx) configMath(e *Engine) {
	bc := "shuttermint/contract.BatchConfig"
	self, arg := &Expr{Op: "param", S: "$0"}, &Expr{Op: "param", S: "$1"}
	own := func(n string) *Expr { return path(self, n) }
	start := polyOf(own("StartBlockNumber")).add(polyOf(arg).add(polyOf(own("StartBatchIndex")), -1).mul(polyOf(own("BatchSpan"))), 1)
	early := func(f *Facts) bool { return f.Lt(Param(1), Fld(Param(0), "StartBatchIndex")) }
	c.returns(e, c.method(e, bc, "BatchStartBlock"), "conversion", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return early(a.Facts)
		}
		return polyEq(polyOf(a.Args[0]), start)
	}, "the first block of a batch is not the first block of the config plus the number of batches before it times the batch span")
	c.returns(e, c.method(e, bc, "BatchEndBlock"), "conversion", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return early(a.Facts)
		}
		return polyEq(polyOf(a.Args[0]), start.add(polyOf(own("BatchSpan")), 1))
	}, "the end of a batch is not the batch span after its start")
	isSpan := func(cfg M) M { return Fld(cfg, "BatchSpan") }
	inactive := func(f *Facts, cfg M) bool { return f.Eq(isSpan(cfg), Num(0)) || f.Le(isSpan(cfg), Num(0)) }
	ratio := func(cfg, blk *Expr) *Expr {
		return binOf("/", binOf("-", blk, sel(cfg, "StartBlockNumber"), nil), sel(cfg, "BatchSpan"), nil)
	}
	c.returns(e, c.method(e, bc, "BatchIndex"), "conversion", func(a *CAlt) bool {
		f := a.Facts
		if isPanic(a.Args[0]) {
			return f.Lt(Param(1), Fld(Param(0), "StartBlockNumber"))
		}
		if !f.Le(Fld(Param(0), "StartBlockNumber"), Param(1)) {
			return false
		}
		if inactive(f, Param(0)) {
			return Fld(Param(0), "StartBatchIndex")(strip(a.Args[0]))
		}
		return polyEq(polyOf(a.Args[0]), polyOf(own("StartBatchIndex")).add(polyOf(ratio(self, arg)), 1))
	}, "the batch of a block is not the first batch plus the number of whole spans since the first block")
	c.returns(e, c.method(e, bc, "IsActive"), "conversion", func(a *CAlt) bool {
		on := func(f *Facts) bool {
			return f.Lt(Num(0), isSpan(Param(0))) || f.Ne(isSpan(Param(0)), Num(0))
		}
		return yesNo(e, a.Facts, a.Args[0], on, func(f *Facts) bool { return inactive(f, Param(0)) }) ||
			Or(Bin(">", isSpan(Param(0)), Num(0)), Bin("!=", isSpan(Param(0)), Num(0)), Bin("<", Num(0), isSpan(Param(0))))(a.Args[0])
	}, "a config is taken as active although its batch span is zero, or the other way round")
	next := c.method(e, cfgContract, "NextBatchIndex")
	if next == nil {
		return
	}
	isCfg := Ext(Or(Call(".ConfigForConfigIndex"), Call(".GetConfigByIndex")), 0)
	n := 0
	for _, o := range e.Summary(next).Outs {
		if len(o.Results) != 2 || !Nil(o.Results[1]) {
			continue
		}
		n++
		f := o.Facts
		ok := false
		for _, y := range exprsIn(f, Fld(isCfg, "StartBlockNumber")) {
			cfg := y.Args[0]
			if !f.Le(Is(y), Param(1)) {
				continue
			}
			v := o.Results[0]
			if inactive(f, Is(cfg)) {
				ok = ok || Fld(Is(cfg), "StartBatchIndex")(strip(v))
			} else {
				ok = ok || polyEq(polyOf(v), polyOf(sel(cfg, "StartBatchIndex")).add(polyOf(ratio(cfg, arg)), 1).add(polyConst(1), 1))
			}
			// it is the last config that has started
			i := cfg.Args[0].Args[len(cfg.Args[0].Args)-1]
			last := false
			for _, lp := range e.Summary(next).Loops {
				last = last || inductive(lp, i, func(f *Facts, v *Expr) bool {
					return exists(subExprs(v, Ext(Call(".NumConfigs"), 0)), func(m *Expr) bool { return polyEq(polyOf(v), polyOf(m).add(polyConst(1), -1)) })
				}, func(f *Facts, v *Expr) bool {
					return polyEq(polyOf(v), polyOf(i).add(polyConst(1), -1)) && f.Lt(Param(1), Is(y))
				})
			}
			c.must(last, "conversion", "config in "+fnName(next), "the config used is not the last one that has started")
		}
		c.must(ok, "conversion", "result of "+fnName(next), "the next batch is not the one after that of the given block, or the first one of an inactive config: "+short(o.Results[0]))
	}
	c.must(n > 0, "conversion", fnName(next), "the function never succeeds")
}

// ---- files ----

func (c *Ctx) configFile(e *Engine) {
	fn := c.method(e, "shuttermint/contract.BatchConfig", "UnmarshalJSON")
	if fn == nil {
		return
	}
	thr, num := Fld(Param(0), "Threshold"), Len(Fld(Param(0), "Keypers"))
	n := 0
	for _, o := range e.Summary(fn).Outs {
		if len(o.Results) != 1 || !Nil(o.Results[0]) {
			continue
		}
		n++
		f := o.Facts
		c.must(f.Ne(thr, Num(0)) || f.Lt(Num(0), thr), "accepted", "threshold", "a config with threshold 0 is accepted")
		c.must(f.Le(thr, Strip(num)), "accepted", "keypers", "a config with fewer keypers than its threshold is accepted")
		c.must(f.Eq(Len(Ext(Call("hexutil.Decode"), 0)), Num(4)), "accepted", "selector", "a selector that is not 4 bytes long is accepted")
		c.must(f.IsNil(Call("json.Unmarshal")) && f.IsNil(Ext(Call("hexutil.Decode"), 1)), "accepted", "errors", "a file that cannot be decoded is accepted")
	}
	c.must(n > 0, "accepted", fnName(fn), "no config is accepted")
	// what is encoded specially is copied
	c.overlay(e, fn)
}

// overlay: the fields of the auxiliary struct that is decoded are copied to the fields of the same name.
func (c *Ctx) overlay(e *Engine, fn *ssa.Function) {
	var fields []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			if st, ok := al.Type().(*types.Pointer).Elem().(*types.Struct); ok && st.NumFields() > 1 {
				for i := 0; i < st.NumFields(); i++ {
					if !st.Field(i).Embedded() {
						fields = append(fields, st.Field(i).Name())
					}
				}
			}
		}
	}
	for _, x := range fields {
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if ok && fieldName(fa.X.Type(), fa.Field) == x && strings.HasSuffix(typeBase(fa.X.Type()), "contract.BatchConfig") {
						found = found || dependsOnField(y.Val, x, map[ssa.Value]bool{})
					}
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						if s, ok := y.Call.Args[0].(*ssa.Slice); ok {
							if fa, ok := s.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == x {
								found = found || dependsOnField(y.Call.Args[1], x, map[ssa.Value]bool{})
							}
						}
					}
				}
			}
		}
		c.must(found, "accepted", "setting "+x, "the setting in the file is ignored")
	}
}

// dependsOnField: the value is computed from a field with the name.
func dependsOnField(v ssa.Value, x string, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.FieldAddr:
		if fieldName(y.X.Type(), y.Field) == x {
			return true
		}
	case *ssa.Field:
		if fieldName(y.X.Type(), y.Field) == x {
			return true
		}
	case *ssa.Alloc:
		// what is stored in it
		var from func(r *[]ssa.Instruction) bool
		from = func(rs *[]ssa.Instruction) bool {
			for _, r := range *rs {
				switch z := r.(type) {
				case *ssa.Store:
					if z.Addr == y && dependsOnField(z.Val, x, seen) {
						return true
					}
					if dependsOnField(z.Val, x, seen) {
						return true
					}
				case *ssa.IndexAddr:
					if from(z.Referrers()) {
						return true
					}
				}
			}
			return false
		}
		if from(y.Referrers()) {
			return true
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && dependsOnField(*o, x, seen) {
			return true
		}
	}
	return false
}
