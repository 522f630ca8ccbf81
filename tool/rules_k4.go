package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about what a keyper observes: lookups, synchronization with the two chains, filtering.

const obsPkg = "shuttermint/keyper/observe."

func init() {
	register(&Check{ID: "C24", Mods: []string{"shuttermint"},
		Rule: "Every return of a lookup in the observed state has path conditions implying what the lookup promises: the element returned satisfies the criterion (its first batch or block is not after the one asked for; its index is the one asked for; its address is the one asked for; its height is not below the bound) and all elements on the other side of it do not, as facts that hold after every iteration of the loop, or for every element before the result of a binary search; nothing is returned only if the criterion holds for no element.",
		Min:  map[string]int{"latest": 10, "exact": 4, "suffix": 10, "membership": 10, "wrapper": 3},
		Run:  checkC24})
}

// partOf: for all elements of the list visited before position idx (upwards or downwards) a fact holds.
func partOf(f *Facts, list M, dir string, idx *Expr, p func(f *Facts) bool) bool {
	return f.All(func(x *Expr) bool {
		return x.Op == "part" && x.S == dir && list(x.Args[0]) && (idx == nil || polyEq(polyOf(x.Args[1]), polyOf(idx)))
	}, p)
}

// returns visits the ways in which a function returns.
func (c *Ctx) returns(e *Engine, fn *ssa.Function, rule string, pred func(a *CAlt) bool, msg string) {
	if fn == nil {
		return
	}
	n := 0
	c.walk(e, fn, nil, func(s *CSite) {
		if (s.Kind == "return" || s.Kind == "panic") && s.Fn == fn && len(s.Path) == 0 {
			n++
			if s.Kind == "panic" {
				// the value of a panic is of no interest
				c.each(s, rule, func(a *CAlt) bool { b := *a; b.Args = []*Expr{{Op: "panic"}}; return pred(&b) }, msg)
			} else {
				c.each(s, rule, pred, msg)
			}
		}
	})
	c.must(n > 0, rule, fnName(fn), "the function does not return")
}

func isPanic(x *Expr) bool { return x != nil && x.Op == "panic" }

// zeroValue: nothing, in the sense of a lookup.
func zeroValue(x *Expr) bool {
	if x == nil {
		return false
	}
	x = strip(x)
	if x.Op == "nil" || x.Op == "zero" || Num(0)(x) || x.Op == "struct" && len(x.Fields) == 0 {
		return true
	}
	if x.Op == "struct" {
		for _, v := range x.Fields {
			if !zeroValue(v) && !K("false")(v) && !K(`""`)(v) {
				return false
			}
		}
		return true
	}
	return false
}

// elemOf returns the list and position of an element.
func elemOf(x *Expr) (*Expr, *Expr) {
	if x == nil || x.Op != "index" || len(x.Args) != 2 {
		return nil, nil
	}
	l, i := x.Args[0], x.Args[1]
	if l.Op == "slice" {
		// an element of a part of the list
		lo := l.Args[1]
		if lo.Key() != "_" {
			i = binOf("+", lo, i, nil)
		}
		l = unsliced(l)
	}
	return l, i
}

// latest: the element at position i of the list is the last one whose field is at most x.
func latest(f *Facts, list M, l, i *Expr, field string, x M) bool {
	if l == nil || !list(l) {
		return false
	}
	at := Fld(Idx(Is(l), Any), field)
	e := indexOf(l, i, nil)
	later := func(g *Facts) bool { return g.Lt(x, at) }
	if f.Le(Fld(Is(e), field), x) && partOf(f, Is(l), "down", i, later) {
		return true
	}
	// counting up, but looking at the elements from the last one on
	n0 := polyOf(&Expr{Op: "len", Args: []*Expr{l}})
	mirror := func(p *Expr) bool {
		return p.Op == "part" && p.S == "up" && p.Args[0].Key() == l.Key() && polyEq(polyOf(i), n0.add(polyOf(p.Args[1]), -1).add(polyConst(1), -1))
	}
	if f.Le(Fld(Is(e), field), x) && f.All(mirror, func(g *Facts) bool {
		return g.Lt(x, Fld(Idx(Is(l), func(y *Expr) bool { return polyEq(polyOf(y), polyOf(i)) }), field))
	}) {
		return true
	}
	// the element before the first one that is too late; the lists are sorted
	next := binOf("+", i, intExpr(1), nil)
	if !partOf(f, Is(l), "up", next, func(g *Facts) bool { return g.Le(at, x) }) {
		return false
	}
	n := polyOf(next)
	if f.PolyLe(polyOf(&Expr{Op: "len", Args: []*Expr{l}}), n) {
		return true
	}
	for _, y := range exprsIn(f, Idx(Is(l), Any)) {
		if polyEq(polyOf(y.Args[1]), n) && f.Lt(x, Fld(Is(y), field)) {
			return true
		}
	}
	return false
}

// noneAtMost: no element of the list has a field of at most x.
func noneAtMost(f *Facts, list M, field string, x M) bool {
	later := func(g *Facts) bool { return g.Lt(x, Fld(Idx(list, Any), field)) }
	if f.All(list, later) {
		return true
	}
	// by a binary search: the first element is too late, or there are no elements
	if f.Eq(Len(list), Num(0)) {
		return true
	}
	return exists(exprsIn(f, Idx(list, Any)), func(y *Expr) bool {
		return (polyEq(polyOf(y.Args[1]), poly{}) || f.Eq(Is(strip(y.Args[1])), Num(0))) && f.Lt(x, Fld(Is(y), field))
	})
}

func checkC24(c *Ctx) {
	e := c.shm()
	shutter := func(m string) *ssa.Function { return c.method(e, obsPkg+"Shutter", m) }
	mainChain := func(m string) *ssa.Function { return c.method(e, obsPkg+"MainChain", m) }
	own := func(f string) M { return Fld(Param(0), f) }
	arg := Strip(Param(1))
	eons, shCfgs, mcs := own("Eons"), own("BatchConfigs"), own("BatchConfigs")

	// the latest element that is not too late
	eonStart := func(f *Facts, l, i *Expr) bool {
		// the field is nested, so compare by hand
		if l == nil || !eons(l) {
			return false
		}
		at := func(x M) M { return Fld(Fld(x, "StartEvent"), "BatchIndex") }
		return f.Le(at(Is(indexOf(l, i, nil))), arg) && partOf(f, Is(l), "down", i, func(g *Facts) bool { return g.Lt(arg, at(Idx(Is(l), Any))) })
	}
	c.returns(e, shutter("FindEonByBatchIndex"), "latest", func(a *CAlt) bool {
		if l, i := elemOf(a.Args[0]); l != nil {
			return eonStart(a.Facts, l, i) && Nil(a.Args[1])
		}
		return Nil(a.Args[0]) && !Nil(a.Args[1]) && a.Facts.All(eons, func(g *Facts) bool {
			return g.Lt(arg, Fld(Fld(Idx(eons, Any), "StartEvent"), "BatchIndex"))
		})
	}, "the eon returned is not the latest one whose first batch is not after the given batch, or none is returned although there is one")
	c.returns(e, shutter("FindBatchConfigByBatchIndex"), "latest", func(a *CAlt) bool {
		if l, i := elemOf(a.Args[0]); l != nil {
			return latest(a.Facts, shCfgs, l, i, "StartBatchIndex", arg)
		}
		return zeroValue(a.Args[0]) && noneAtMost(a.Facts, shCfgs, "StartBatchIndex", arg)
	}, "the keyper config returned is not the latest one whose first batch is not after the given batch, or none is returned although there is one")
	c.returns(e, mainChain("ActiveConfigIndex"), "latest", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBlockNumber", arg)
		}
		return latest(a.Facts, mcs, path(&Expr{Op: "param", S: "$0"}, "BatchConfigs"), strip(a.Args[0]), "StartBlockNumber", arg)
	}, "the config returned is not the latest one that started at or before the given block")
	batchCfg := func(a *CAlt, l, i *Expr, ok *Expr) bool {
		f := a.Facts
		span := Fld(Idx(mcs, Any), "BatchSpan")
		found := func(active bool) bool {
			return exists(exprsIn(f, span), func(x *Expr) bool {
				l, i := elemOf(x.Args[0])
				return latest(f, mcs, l, i, "StartBatchIndex", arg) && (active && (f.Lt(Num(0), Is(x)) || f.Ne(Is(x), Num(0))) || !active && (f.Le(Is(x), Num(0)) || f.Eq(Is(x), Num(0))))
			})
		}
		if f.True(Is(ok)) || K("true")(ok) {
			return l != nil && latest(f, mcs, l, i, "StartBatchIndex", arg) && found(true)
		}
		if f.False(Is(ok)) || K("false")(ok) {
			return found(false)
		}
		// the result tells whether the span is not zero
		return l != nil && latest(f, mcs, l, i, "StartBatchIndex", arg) && (Or(Bin(">", Fld(Is(indexOf(l, i, nil)), "BatchSpan"), Num(0)), Bin("!=", Fld(Is(indexOf(l, i, nil)), "BatchSpan"), Num(0)))(ok))
	}
	theCfgs := path(&Expr{Op: "param", S: "$0"}, "BatchConfigs")
	c.returns(e, mainChain("ConfigIndexForBatchIndex"), "latest", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBatchIndex", arg)
		}
		return batchCfg(a, theCfgs, strip(a.Args[0]), a.Args[1])
	}, "the config returned is not the one responsible for the given batch, or it is returned although it is inactive, or the other way round")
	c.returns(e, mainChain("ConfigForBatchIndex"), "latest", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBatchIndex", arg)
		}
		l, i := elemOf(a.Args[0])
		return batchCfg(a, l, i, a.Args[1])
	}, "the config returned is not the one responsible for the given batch, or it is returned although it is inactive, or the other way round")
	c.returns(e, mainChain("ActiveConfig"), "wrapper", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBlockNumber", arg)
		}
		l, i := elemOf(a.Args[0])
		return latest(a.Facts, mcs, l, i, "StartBlockNumber", arg)
	}, "the config returned is not the latest one that started at or before the given block")
	now := own("CurrentBlock")
	c.returns(e, mainChain("CurrentConfig"), "wrapper", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBlockNumber", now)
		}
		l, i := elemOf(a.Args[0])
		return latest(a.Facts, mcs, l, i, "StartBlockNumber", now)
	}, "the config returned is not the latest one that started at or before the current block")
	c.returns(e, mainChain("ActiveConfigs"), "wrapper", func(a *CAlt) bool {
		x := a.Args[0]
		if isPanic(x) {
			return noneAtMost(a.Facts, mcs, "StartBlockNumber", now)
		}
		return x.Op == "slice" && x.Args[2].Key() == "_" && latest(a.Facts, mcs, x.Args[0], strip(x.Args[1]), "StartBlockNumber", now)
	}, "the configs returned are not those from the active one on")

	// exact matches
	c.returns(e, shutter("FindEon"), "exact", func(a *CAlt) bool {
		f := a.Facts
		at := Fld(Idx(eons, Any), "Eon")
		if Nil(a.Args[0]) {
			if Nil(a.Args[1]) {
				return false
			}
			if f.All(eons, func(g *Facts) bool { return g.Ne(at, arg) || g.Lt(at, arg) || g.Lt(arg, at) }) {
				return true
			}
			return absent(f, eons, "Eon", arg)
		}
		l, i := elemOf(a.Args[0])
		return l != nil && eons(l) && Nil(a.Args[1]) && sameValue(f, Fld(Is(indexOf(l, i, nil)), "Eon"), arg)
	}, "the eon returned is not the one asked for, or none is returned although there may be one")
	c.returns(e, shutter("FindBatchConfigByConfigIndex"), "exact", func(a *CAlt) bool {
		f := a.Facts
		at := Fld(Idx(shCfgs, Any), "ConfigIndex")
		if l, i := elemOf(a.Args[0]); l != nil {
			return shCfgs(l) && Nil(a.Args[1]) && sameValue(f, Fld(Is(indexOf(l, i, nil)), "ConfigIndex"), arg)
		}
		return !Nil(a.Args[1]) && (f.All(shCfgs, func(g *Facts) bool { return g.Ne(at, arg) || g.Lt(at, arg) || g.Lt(arg, at) }) || absent(f, shCfgs, "ConfigIndex", arg))
	}, "the keyper config returned is not the one asked for, or none is returned although there may be one")

	// the messages from a height on
	for m, list := range map[string]string{"GetPolyCommitments": "Commitments", "GetPolyEvals": "PolyEvals", "GetAccusations": "Accusations", "GetApologies": "Apologies", "GetEpochSecretKeyShares": "EpochSecretKeyShares"} {
		L := own(list)
		h := Fld(Idx(L, Any), "Height")
		before := func(g *Facts) bool { return g.Lt(h, arg) }
		c.returns(e, c.method(e, obsPkg+"Eon", m), "suffix", func(a *CAlt) bool {
			f, x := a.Facts, a.Args[0]
			if Nil(x) || x.Op == "list" && len(x.Args) == 0 || x.Op == "zero" {
				if f.All(L, before) || f.Eq(Len(L), Num(0)) {
					return true
				}
				// by a binary search that found nothing
				return exists(exprsIn(f, Len(L)), func(n *Expr) bool {
					return f.All(func(p *Expr) bool {
						return p.Op == "part" && p.S == "up" && L(p.Args[0]) && f.Eq(Is(strip(p.Args[1])), Is(strip(n)))
					}, before)
				})
			}
			if x.Op != "slice" || !L(x.Args[0]) || x.Args[2].Key() != "_" {
				// a filtered copy is judged by what is appended
				return filteredList(e, x, L, func(g *Facts, elem M) bool { return g.Lt(Fld(elem, "Height"), arg) })
			}
			from := x.Args[1]
			first := f.Le(arg, Fld(Idx(L, Is(from)), "Height")) || f.Eq(Is(from), Len(L)) || f.PolyLe(polyOf(&Expr{Op: "len", Args: []*Expr{x.Args[0]}}), polyOf(from))
			return first && partOf(f, L, "up", from, before)
		}, "the messages returned are not exactly those at or above the given height")
		c.walk(e, c.method(e, obsPkg+"Eon", m), nil, func(s *CSite) {
			if s.Kind == "call" && s.Name == "append" {
				c.each(s, "suffix", func(a *CAlt) bool {
					if len(a.Args) == 2 && a.Args[1].Op == "list" && len(a.Args[1].Args) == 1 {
						l, i := elemOf(a.Args[1].Args[0])
						return l != nil && L(l) && a.Facts.Le(arg, Fld(Is(indexOf(l, i, nil)), "Height"))
					}
					return len(a.Args) == 2 && a.Args[1].Op == "slice"
				}, "a message below the given height is returned")
			}
		})
	}

	// membership
	inList := func(a *CAlt, L, x M, res *Expr) bool {
		in := func(f *Facts) bool { return f.Eq(Idx(L, Any), x) }
		out := func(f *Facts) bool {
			return f.All(L, func(g *Facts) bool { return g.Ne(Idx(L, Any), x) })
		}
		return yesNo(e, a.Facts, res, in, out)
	}
	for _, typ := range []string{"shuttermint/contract.BatchConfig", "shuttermint/keyper/shutterevents.BatchConfig"} {
		K := own("Keypers")
		c.returns(e, c.method(e, typ, "KeyperIndex"), "membership", func(a *CAlt) bool {
			f := a.Facts
			return yesNo(e, f, a.Args[1], func(f *Facts) bool { return f.Eq(Idx(K, Is(strip(a.Args[0]))), arg) },
				func(f *Facts) bool { return f.All(K, func(g *Facts) bool { return g.Ne(Idx(K, Any), arg) }) })
		}, "the index returned is not that of the given address, or it is reported missing although it may be there")
		c.returns(e, c.method(e, typ, "IsKeyper"), "membership", func(a *CAlt) bool { return inList(a, K, arg, a.Args[0]) },
			"the result does not tell whether the address is one of the keypers")
	}
	c.returns(e, shutter("IsKeyper"), "membership", func(a *CAlt) bool {
		K := Fld(Idx(shCfgs, Any), "Keypers")
		return yesNo(e, a.Facts, a.Args[0], func(f *Facts) bool { return f.Eq(Idx(K, Any), arg) }, func(f *Facts) bool {
			return f.All(shCfgs, func(g *Facts) bool { return g.All(K, func(h *Facts) bool { return h.Ne(Idx(K, Any), arg) }) })
		})
	}, "the result does not tell whether the address is a keyper of any config")
	c.returns(e, mainChain("IsActiveKeyper"), "membership", func(a *CAlt) bool {
		if isPanic(a.Args[0]) {
			return noneAtMost(a.Facts, mcs, "StartBlockNumber", now)
		}
		cfg := Idx(mcs, Any)
		K := Fld(cfg, "Keypers")
		return yesNo(e, a.Facts, a.Args[0], func(f *Facts) bool {
			return exists(exprsIn(f, Idx(K, Any)), func(x *Expr) bool {
				// an element of the configs from the active one on
				l := x.Args[0].Args[0].Args[0]
				if !f.Eq(Is(x), arg) {
					return false
				}
				if l.Op == "slice" {
					return latest(f, mcs, l.Args[0], strip(l.Args[1]), "StartBlockNumber", now)
				}
				return exists(exprsIn(f, cfg), func(y *Expr) bool {
					l, i := elemOf(y)
					return latest(f, mcs, l, i, "StartBlockNumber", now) && f.PolyLe(polyOf(i), polyOf(x.Args[0].Args[0].Args[1]))
				})
			})
		}, func(f *Facts) bool {
			return f.All(func(l *Expr) bool {
				return l.Op == "slice" && l.Args[2].Key() == "_" && latest(f, mcs, l.Args[0], strip(l.Args[1]), "StartBlockNumber", now)
			}, func(g *Facts) bool { return g.All(K, func(h *Facts) bool { return h.Ne(Idx(K, Any), arg) }) })
		})
	}, "the result does not tell whether the address is a keyper of an active config")
	c.returns(e, shutter("IsCheckedIn"), "membership", func(a *CAlt) bool {
		keys := own("KeyperEncryptionKeys")
		return yesNo(e, a.Facts, a.Args[0], func(f *Facts) bool { return f.HasKey(keys, arg) }, func(f *Facts) bool { return f.NotHas(keys, arg) }) ||
			Has(keys, arg)(a.Args[0])
	}, "the result does not tell whether the keyper's encryption key is known")
}

// sameValue: a is b, by an equality or by comparisons.
func sameValue(f *Facts, a, b M) bool { return f.Eq(a, b) || f.Le(a, b) && f.Le(b, a) }

// absent: a binary search found that no element of the sorted list has this value.
func absent(f *Facts, list M, field string, x M) bool {
	at := Fld(Idx(list, Any), field)
	below := func(g *Facts) bool { return g.Lt(at, x) }
	return f.All(func(p *Expr) bool {
		if p.Op != "part" || p.S != "up" || !list(p.Args[0]) {
			return false
		}
		i := p.Args[1]
		n := &Expr{Op: "len", Args: []*Expr{p.Args[0]}}
		return f.Eq(Is(strip(i)), Is(n)) || f.PolyLe(polyOf(n), polyOf(i)) || f.Lt(x, Fld(Idx(list, Is(i)), field)) ||
			f.Ne(x, Fld(Idx(list, Is(i)), field))
	}, below)
}

// yesNo: a boolean result is justified by what is known in either case.
func yesNo(e *Engine, f *Facts, res *Expr, yes, no func(f *Facts) bool) bool {
	switch {
	case res == nil:
		return false
	case K("true")(res) || f.True(Is(res)):
		return yes(f)
	case K("false")(res) || f.False(Is(res)):
		return no(f)
	}
	t, n := f.add(lit(res, true)), f.add(lit(res, false))
	return (t == nil || e.Implies(t, yes)) && (n == nil || e.Implies(n, no))
}

// ---- synchronization with the shuttermint chain ----

func init() {
	register(&Check{ID: "C25", Mods: []string{"shuttermint"},
		Rule: "The queries for transactions cover, from the last synced block on, consecutive block ranges without gap or overlap up to the block that is recorded as synced (the first range starts after the synced block and every next one after the end of the one before, by the values that the loop carries; every successful return has queried a range ending at the target); every range is read from its first page on to its last. All transactions of a page are processed, in the order in which they happened, with their own height, all their events are decoded and each one decoded is applied; every kind of event has an effect, which is to append it to the list of its own kind, of the eon or batch with the number in the event.",
		Min:  map[string]int{"range start": 2, "range end": 2, "pages": 2, "last page": 2, "all transactions": 2, "decoded": 2, "applied": 1, "order": 1, "event kinds": 9, "event effect": 9, "recorded height": 1, "target": 1},
		Run:  checkC25})
}

var clauseRe = regexp.MustCompile(`^\s*tx\.height\s*(>=|<=|>|<|=)\s*(%d|%v|\d+)\s*$`)

// heightQuery returns the first and last height that a query for transactions covers.
func heightQuery(x *Expr) (lo, hi *Expr) {
	x = strip(x)
	if x == nil || x.Op != "call" || x.S != "fmt.Sprintf" || len(x.Args) != 2 || x.Args[0].Op != "const" || x.Args[1].Op != "list" {
		return nil, nil
	}
	format, err := strconv.Unquote(x.Args[0].S)
	if err != nil {
		return nil, nil
	}
	args := x.Args[1].Args
	for _, cl := range regexp.MustCompile(`(?i)\s+and\s+`).Split(format, -1) {
		m := clauseRe.FindStringSubmatch(cl)
		if m == nil || m[2][0] != '%' || len(args) == 0 {
			return nil, nil
		}
		v := strip(wrapped(args[0]))
		args = args[1:]
		switch m[1] {
		case ">=":
			lo = v
		case ">":
			lo = binOf("+", v, intExpr(1), v.T)
		case "<=":
			hi = v
		case "<":
			hi = binOf("-", v, intExpr(1), v.T)
		case "=":
			lo, hi = v, v
		}
	}
	if len(args) > 0 || lo == nil || hi == nil {
		return nil, nil
	}
	return lo, hi
}

const txSearch = "rpc/client.Client).TxSearch"

// dids returns the calls that were made according to the facts.
func (fs *Facts) dids(m M) []*Expr {
	var r []*Expr
	for _, k := range fs.keys() {
		if f := fs.m[k]; f.Op == "did" && m(f.A[0]) {
			r = append(r, f.A[0])
		}
	}
	return r
}

func replaced(x *Expr, key string, by *Expr) *Expr {
	return (&subst{rep: map[string]*Expr{key: by}}).expr(x)
}

// loopVars returns the values carried by a loop that occur in an expression.
func loopVars(l *Loop, x *Expr) []string {
	var r []string
	if len(l.Edges) == 0 {
		return nil
	}
	for k := range l.Edges[0].Vals {
		if contains(x, func(y *Expr) bool { return y.Key() == k }) {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// inductive: x starts as init on every way into the loop, and step holds for its value in the next iteration.
func inductive(l *Loop, x *Expr, init func(f *Facts, v *Expr) bool, step func(f *Facts, v *Expr) bool) bool {
	vars := loopVars(l, x)
	if len(vars) == 0 {
		return false
	}
	back := false
	for _, ed := range l.Edges {
		v := x
		for _, k := range vars {
			if ed.Vals[k] == nil {
				return false
			}
			v = replaced(v, k, ed.Vals[k])
		}
		if !ed.Back && !init(ed.Facts, v) || ed.Back && !step(ed.Facts, v) {
			return false
		}
		back = back || ed.Back
	}
	return back
}

// ends visits what is known where a function returns without an error and where an iteration of a loop that does
// not contain the block `in` without going round another of its loops ends.
func (c *Ctx) ends(e *Engine, fn *ssa.Function, in *ssa.BasicBlock, visit func(where string, f *Facts)) {
	sum := e.Summary(fn)
	for i, o := range sum.Outs {
		if len(o.Results) > 0 {
			if last := o.Results[len(o.Results)-1]; isErrType(last) && !Nil(last) {
				continue
			}
		}
		visit(fmt.Sprintf("return %d of %s", i, fnName(fn)), o.Facts)
	}
	inner := innermostLoop(in)
	for _, l := range sum.Loops {
		if !l.Body[in] {
			continue
		}
		for i, ed := range l.Edges {
			if ed.Back {
				kind := "iteration"
				if l.Head == inner {
					kind = "inner iteration"
				}
				visit(fmt.Sprintf("%s %d.%d of %s", kind, l.Head.Index, i, fnName(fn)), ed.Facts)
			}
		}
	}
}

func isErrType(x *Expr) bool {
	if Nil(x) {
		return true
	}
	return x.T != nil && types.Identical(x.T, types.Universe.Lookup("error").Type()) || x.Op == "call" && (strings.Contains(x.S, "errors.") || strings.HasSuffix(x.S, "Errorf"))
}

func checkC25(c *Ctx) {
	e := c.shm()
	root := c.method(e, obsPkg+"Shutter", "SyncToHeight")
	if root == nil {
		return
	}
	// the functions that query, and those on the way to them
	type query struct {
		s    *CSite
		path []*ssa.Function
	}
	var qs []query
	notEvents := func(f *ssa.Function, p []*Site) bool { return !inPkg(f, "shuttermint/keyper/shutterevents") }
	c.walk(e, root, notEvents, func(s *CSite) {
		if s.Kind == "call" && nameEnds(s.Name, txSearch) {
			qs = append(qs, query{s, chain(s, root)})
		}
	})
	c.must(len(qs) > 0, "range start", fnName(root), "no transactions are queried")
	cur := path(&Expr{Op: "param", S: "$0"}, "CurrentBlock")
	isQuery := func(x *Expr) bool { return x.Op == "call" && nameEnds(x.S, txSearch) }
	for _, q := range qs {
		where := q.s.where(e.P)
		// block ranges
		okStart, okEnd := false, false
		var drv *ssa.Function
		target := -1
		for _, F := range q.path {
			sum := e.Summary(F)
			var sites []*CSite
			c.walk(e, F, notEvents, func(s *CSite) {
				if s.In == q.s.In {
					sites = append(sites, s)
				}
			})
			good := len(sites) > 0
			for _, s := range sites {
				for _, a := range s.Alts {
					if len(a.Args) < 6 {
						good = false
						continue
					}
					lo, _ := heightQuery(a.Args[2])
					if lo == nil {
						good = false
						continue
					}
					ok := polyEq(polyOf(lo), polyOf(cur).add(polyConst(1), 1))
					for _, l := range sum.Loops {
						ok = ok || inductive(l, lo, func(f *Facts, v *Expr) bool {
							return polyEq(polyOf(v), polyOf(cur).add(polyConst(1), 1))
						}, func(f *Facts, v *Expr) bool {
							return exists(f.dids(isQuery), func(d *Expr) bool {
								lo2, hi2 := heightQuery(d.Args[2])
								return lo2 != nil && lo2.Key() == lo.Key() && polyEq(polyOf(v), polyOf(hi2).add(polyConst(1), 1))
							})
						})
					}
					good = good && ok
				}
			}
			if !good {
				continue
			}
			okStart, drv = true, F
			// the target: the parameter at which the last range ends
			for i := range F.Params {
				p := &Expr{Op: "param", S: fmt.Sprintf("$%d", i)}
				n, all := 0, true
				c.ends(e, F, F.Blocks[0], func(w string, f *Facts) {
					n++
					all = all && exists(f.dids(isQuery), func(d *Expr) bool {
						_, hi := heightQuery(d.Args[2])
						return hi != nil && (hi.Key() == p.Key() || f.Eq(Is(hi), Is(p)))
					})
				})
				if n > 0 && all {
					okEnd, target = true, i
				}
			}
			break
		}
		c.must(okStart, "range start", where, "the block ranges queried do not start after the last synced block, or leave a gap or overlap")
		if !okStart {
			continue
		}
		c.must(okEnd, "range end", where, "there are successful returns after which the blocks up to the target have not been queried")
		if !okEnd {
			continue
		}
		c.walk(e, drv, notEvents, func(s *CSite) {
			if s.Kind == "call" && s.Name == "fmt.Sprintf" {
				if _, hi := heightQuery(&Expr{Op: "call", S: s.Name, Args: s.Alts[0].Args}); hi != nil {
					c.each(s, "range end", func(a *CAlt) bool {
						_, hi := heightQuery(&Expr{Op: "call", S: s.Name, Args: a.Args})
						return hi != nil && a.Facts.PolyLe(polyOf(hi), polyOf(&Expr{Op: "param", S: fmt.Sprintf("$%d", target)}))
					}, "a block range extends beyond the block recorded as synced, whose later blocks are then applied twice")
				}
			}
		})
		// the synced block
		c.walk(e, root, notEvents, func(s *CSite) {
			if o, n := wField(s); s.Kind == "store" && n == "CurrentBlock" && strings.HasSuffix(o, "observe.Shutter") {
				c.each(s, "recorded height", func(a *CAlt) bool {
					if drv == root {
						return a.Args[0].Key() == fmt.Sprintf("$%d", target)
					}
					return exists(a.Facts.dids(Call(fnName(drv))), func(d *Expr) bool {
						return target < len(d.Args) && d.Args[target].Key() == a.Args[0].Key()
					})
				}, "the block recorded as synced is not the one up to which events were fetched")
			}
		})
		c.checkPages(e, q.s, where)
	}
	// what is returned
	c.returns(e, root, "recorded height", func(a *CAlt) bool {
		if !Nil(a.Args[len(a.Args)-1]) {
			return true
		}
		r := a.Args[0]
		if m := structFields(r); m != nil && !a.Facts.Did(Call("store:CurrentBlock")) {
			return m["CurrentBlock"] != nil && m["CurrentBlock"].Op == "param"
		}
		return a.Facts.Did(Call("store:CurrentBlock", Is(r))) || a.Facts.Eq(Fld(Is(r), "CurrentBlock"), func(x *Expr) bool { return x.Op == "param" })
	}, "the state returned is not marked as synced up to the target")
	head := c.method(e, obsPkg+"Shutter", "SyncToHead")
	c.walk(e, head, func(f *ssa.Function, p []*Site) bool { return f != root && notEvents(f, p) }, func(s *CSite) {
		if s.Callee == root {
			c.each(s, "target", func(a *CAlt) bool {
				h := a.Args[len(a.Args)-1]
				blk := Ext(Call("Client).Block"), 0)
				return a.Facts.matchUpTo(h, Fld(Fld(Fld(blk, "Block"), "LastCommit"), "Height")) || e.Implies(a.Facts, func(f *Facts) bool {
					return f.matchUpTo(h, Fld(Fld(Fld(blk, "Block"), "LastCommit"), "Height"))
				})
			}, "the state is synced to another block than the last committed one")
		}
	})
	c.checkEvents(e, root)
	// nothing else changes the synced block
	judged := map[*ssa.Function]bool{}
	c.walk(e, root, notEvents, func(s *CSite) { judged[s.Fn] = true })
	for _, f := range e.P.Functions() {
		if judged[f] || isBinding(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa.X.Type(), fa.Field) != "CurrentBlock" || typeBase(fa.X.Type()) != "observe.Shutter" {
					continue
				}
				al, fresh := fa.X.(*ssa.Alloc)
				_, konst := st.Val.(*ssa.Const)
				whole := false
				if fresh {
					for _, r := range *al.Referrers() {
						if w, ok := r.(*ssa.Store); ok && w.Addr == al {
							whole = true
						}
					}
				}
				ok = fresh && !whole && konst || fieldLoad(st.Val) == "CurrentBlock"
				c.must(ok, "recorded height", "store at "+e.P.pos(in)+" ("+fnName(f)+")", "the state is marked as synced up to a block whose events were not fetched")
			}
		}
	}
}

// linearIn returns the factor with which an integer depends on a value that changes with every iteration of the loop, and that value.
func linearIn(v ssa.Value, l map[*ssa.BasicBlock]bool, h *ssa.BasicBlock) (*ssa.Phi, int) {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == h {
			return x, 1
		}
	case *ssa.Convert:
		return linearIn(x.X, l, h)
	case *ssa.ChangeType:
		return linearIn(x.X, l, h)
	case *ssa.BinOp:
		p, n := linearIn(x.X, l, h)
		q, m := linearIn(x.Y, l, h)
		switch {
		case x.Op == token.ADD && q == nil, x.Op == token.SUB && q == nil:
			return p, n
		case x.Op == token.ADD && p == nil:
			return q, m
		case x.Op == token.SUB && p == nil && q != nil:
			return q, -m
		}
	}
	return nil, 0
}

// descends: the loop around the instruction visits the elements of a slice from the last to the first.
func descends(in ssa.Instruction) bool {
	h := innermostLoop(in.Block())
	if h == nil {
		return false
	}
	l := loopOf(h)
	for b := range l {
		if innermostLoop(b) != h {
			continue
		}
		for _, i := range b.Instrs {
			ia, ok := i.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			p, n := linearIn(ia.Index, l, h)
			if p == nil {
				continue
			}
			for i, ed := range p.Edges {
				if !l[h.Preds[i]] {
					continue
				}
				if k, ok := stepOf(ed, p); ok && k*n < 0 {
					return true
				}
			}
		}
	}
	return false
}

// stepOf: the value is the given one plus a constant.
func stepOf(v ssa.Value, p *ssa.Phi) (int, bool) {
	if v == p {
		return 0, true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok && b.Op == token.ADD {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return 0, false
	}
	n, ok := stepOf(x, p)
	if !ok {
		return 0, false
	}
	if b.Op == token.SUB {
		return n - int(k.Int64()), true
	}
	return n + int(k.Int64()), true
}

// checkPages: all pages of a query are read and everything on them is applied.
func (c *Ctx) checkPages(e *Engine, q *CSite, where string) {
	fn := q.Fn
	sum := e.Summary(fn)
	var raw *Site
	for _, s := range sum.Sites {
		if s.In == q.In {
			raw = s
		}
	}
	if raw == nil {
		return
	}
	isOne := func(f *Facts, v *Expr) bool { return Num(1)(v) }
	inner := innermostLoop(q.In.Block())
	var lp *Loop
	for _, l := range sum.Loops {
		if l.Head == inner {
			lp = l
		}
	}
	for _, a := range raw.Alts {
		page, per := a.Args[4], a.Args[5]
		c.must(lp != nil && (page.Op == "opaque" || page.Op == "phi") && inductive(lp, page, isOne, func(f *Facts, v *Expr) bool {
			return polyEq(polyOf(v), polyOf(page).add(polyConst(1), 1))
		}), "pages", "page number at "+where, "the pages read are not 1, 2, 3, …")
		if len(a.Args) > 6 {
			c.must(K(`""`)(a.Args[6]) || K(`"asc"`)(a.Args[6]), "order", "transactions at "+where, "the transactions are not queried in ascending order")
		}
		n, ok := polyOf(per).constant()
		c.must(ok && n >= 1 && n <= 100, "pages", "page size at "+where, "the page size is not a constant between 1 and 100, the most that tendermint returns")
	}
	// the functions through which events are applied
	onPath := map[string]bool{}
	decode := "shutterevents.MakeEvent"
	c.walk(e, fn, func(f *ssa.Function, p []*Site) bool { return !inPkg(f, "shuttermint/keyper/shutterevents") }, func(s *CSite) {
		if s.Kind != "call" || !nameEnds(s.Name, decode) {
			return
		}
		for _, p := range s.Path {
			onPath[p.Name] = true
		}
		onPath[s.Name] = true
		c.each(s, "decoded", func(a *CAlt) bool {
			res := Ext(Call(txSearch), 0)
			tx := Idx(Fld(res, "Txs"), Any)
			ev, h := a.Args[0], strip(a.Args[1])
			evs := func(t *Expr) M {
				r := Fld(Is(t), "TxResult")
				return Idx(Or(Fld(r, "Events"), Call("GetEvents", r)), Any)
			}
			return h != nil && h.Op == "field" && h.S == "Height" && tx(h.Args[0]) && evs(h.Args[0])(ev)
		}, "what is decoded is not an event of a transaction found, or is not given the height of its own transaction")
		for _, p := range append(append([]*Site{}, s.Path...), s.Site) {
			// when the loop over the pages may end is checked below
			pages := p.In.Parent() == fn && innermostLoop(p.In.Block()) == inner
			c.must(everyIteration(p.In) && (pages || !leavesEarly(p.In)), "decoded", "every element for "+e.P.pos(p.In), "some transactions or events are left out")
			c.must(pages || !descends(p.In), "order", "order for "+e.P.pos(p.In), "transactions or events are processed in the reverse of the order in which they happened")
		}
		// what is decoded is applied
		c.checkApplied(e, s)
	})
	all := func(f *Facts) bool {
		done := func(g *Facts) bool {
			return g.Did(func(x *Expr) bool { return x.Op == "call" && onPath[x.S] }) || g.All(Any, func(h *Facts) bool { return h.Did(func(x *Expr) bool { return x.Op == "call" && onPath[x.S] }) })
		}
		return f.All(Fld(Ext(Call(txSearch), 0), "Txs"), done) || f.Eq(Fld(Ext(Call(txSearch), 0), "TotalCount"), Num(0))
	}
	c.ends(e, fn, q.In.Block(), func(w string, f *Facts) {
		if !strings.HasPrefix(w, "inner") {
			total := Fld(Ext(Call(txSearch), 0), "TotalCount")
			last := f.Eq(total, Num(0)) || f.Eq(Len(Fld(Ext(Call(txSearch), 0), "Txs")), Num(0))
			for _, d := range f.dids(func(x *Expr) bool { return x.Op == "call" && nameEnds(x.S, txSearch) }) {
				n := sel(extOf(d, 0, nil), "TotalCount")
				page := polyOf(d.Args[4]).mul(polyOf(d.Args[5]))
				last = last || f.PolyLe(polyOf(n), page) || f.PolyLt(polyOf(&Expr{Op: "len", Args: []*Expr{sel(extOf(d, 0, nil), "Txs")}}), polyOf(d.Args[5]))
				// counting what was received
				for _, y := range exprsIn(f, func(x *Expr) bool { return lp != nil && lp.Edges[0].Vals[x.Key()] != nil }) {
					got := polyOf(y).add(polyOf(&Expr{Op: "len", Args: []*Expr{sel(extOf(d, 0, nil), "Txs")}}), 1)
					if f.PolyLe(polyOf(n), got) && inductive(lp, y, func(f *Facts, v *Expr) bool { return Num(0)(v) }, func(f *Facts, v *Expr) bool { return polyEq(polyOf(v), got) }) {
						last = true
					}
				}
			}
			c.must(last, "last page", w, "reading a block range ends before its last page")
		}
		c.must(all(f), "all transactions", w, "not all transactions of a page are applied")
	})
}

// checkApplied: an event that was decoded at s without an error is applied.
func (c *Ctx) checkApplied(e *Engine, s *CSite) {
	fn := s.Fn
	c.ends(e, fn, s.In.Block(), func(w string, f *Facts) {
		for _, d := range f.dids(func(x *Expr) bool { return x.Op == "call" && x.S == s.Name }) {
			err := extOf(d, 1, nil)
			ev := Or(Ext(Is(d), 0), func(x *Expr) bool {
				return x.Op == "opaque" && strings.Contains(x.S, d.S+".r0") || x.Op == "alloc" && strings.Contains(x.S, "keyper/shutterevents")
			})
			ok := f.NonNil(Is(err)) || f.Did(func(x *Expr) bool {
				return x.Op == "call" && !strings.HasPrefix(x.S, "log.") && !strings.HasPrefix(x.S, "fmt.") && len(x.Args) > 0 && Or(ev, func(y *Expr) bool { return y.Op == "ta" && ev(y.Args[0]) })(x.Args[len(x.Args)-1])
			})
			c.must(ok, "applied", w, "an event that was decoded is not applied: "+f.String())
		}
	})
}

// keptIn returns the field into which the result of an append is stored right away.
func keptIn(in ssa.Instruction) (owner, field string, st *ssa.Store) {
	v, ok := in.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return "", "", nil
	}
	for _, r := range *v.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Val != v {
			continue
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			return typeBase(fa.X.Type()), fieldName(fa.X.Type(), fa.Field), s
		}
	}
	return "", "", nil
}

// eventTypes are the types of the keyper's events.
func eventTypes(e *Engine) []string {
	var out []string
	for _, p := range e.P.Prog.AllPackages() {
		if !strings.HasSuffix(p.Pkg.Path(), "shuttermint/keyper/shutterevents") {
			continue
		}
		iev, ok := p.Members["IEvent"].(*ssa.Type)
		if !ok {
			continue
		}
		it, ok := iev.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for n, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok || n == "IEvent" {
				continue
			}
			if _, isIface := t.Type().Underlying().(*types.Interface); !isIface && types.Implements(types.NewPointer(t.Type()), it) {
				out = append(out, n)
			}
		}
	}
	sort.Strings(out)
	return out
}

// evIs matches an event of the given type.
func evIs(kind string) M {
	return func(x *Expr) bool {
		return x != nil && x.Op == "ta" && strings.HasSuffix(x.S, "shutterevents."+kind)
	}
}

// checkEvents: every kind of event has its effect on the state.
func (c *Ctx) checkEvents(e *Engine, root *ssa.Function) {
	lists := map[string]string{
		"BatchConfig": "Shutter.BatchConfigs", "DecryptionSignature": "BatchData.DecryptionSignatures", "EonStarted": "Shutter.Eons",
		"PolyCommitment": "Eon.Commitments", "PolyEval": "Eon.PolyEvals", "Accusation": "Eon.Accusations", "Apology": "Eon.Apologies",
		"EpochSecretKeyShare": "Eon.EpochSecretKeyShares",
	}
	sites := map[string][]*CSite{}
	c.walk(e, root, func(f *ssa.Function, p []*Site) bool { return !inPkg(f, "shuttermint/keyper/shutterevents") }, func(s *CSite) {
		if !inPkg(s.Fn, "shuttermint/keyper/observe") {
			return
		}
		switch {
		case s.Kind == "call" && s.Name == "append":
			o, n, st := keptIn(s.In)
			if st == nil || !strings.HasPrefix(o, "observe.") {
				return
			}
			for k, l := range lists {
				if "observe."+l == o+"."+n {
					sites[k] = append(sites[k], s)
				}
			}
		case s.Kind == "mapupdate":
			_, n := wField(s)
			if n == "KeyperEncryptionKeys" {
				sites["CheckIn"] = append(sites["CheckIn"], s)
			}
			if n == "Batches" {
				c.each(s, "batch data", func(a *CAlt) bool {
					v := a.Args[1]
					m := structFields(v)
					return m != nil && m["BatchIndex"] != nil && m["BatchIndex"].Key() == a.Args[0].Key() && a.Facts.NotHas(Fld(Any, "Batches"), Is(a.Args[0]))
				}, "the data of a batch is replaced, or filed under another batch index")
			}
		}
	})
	for _, k := range eventTypes(e) {
		ss := sites[k]
		if !c.must(len(ss) > 0, "event kinds", k, "events of this kind have no effect on the state") {
			continue
		}
		for _, s := range ss {
			c.each(s, "event effect", func(a *CAlt) bool {
				f := a.Facts
				var list, elem *Expr
				if s.Kind == "call" {
					if len(a.Args) != 2 || a.Args[1].Op != "list" || len(a.Args[1].Args) != 1 {
						return false
					}
					list, elem = a.Args[0], a.Args[1].Args[0]
				}
				switch k {
				case "CheckIn":
					return Fld(evIs(k), "Sender")(a.Args[0]) && Fld(evIs(k), "EncryptionPublicKey")(a.Args[1])
				case "BatchConfig":
					return evIs(k)(elem) && Fld(Any, "BatchConfigs")(list)
				case "DecryptionSignature":
					if !evIs(k)(elem) {
						return false
					}
					key := Fld(Is(elem), "BatchIndex")
					if list.Op == "nil" {
						return f.Did(Call("mapupdate:Batches", Any, key)) || f.NotHas(Fld(Any, "Batches"), key)
					}
					return Fld(Or(Idx(Fld(Any, "Batches"), key), Ext(Idx(Fld(Any, "Batches"), key), 0)), "DecryptionSignatures")(list)
				case "EonStarted":
					m := structFields(elem)
					if m == nil || !Fld(Any, "Eons")(list) || m["StartEvent"] == nil || !evIs(k)(m["StartEvent"]) {
						return false
					}
					ev := Is(m["StartEvent"])
					if m["Eon"] == nil || !Fld(ev, "Eon")(strip(m["Eon"])) || m["StartHeight"] == nil || !Fld(ev, "Height")(strip(m["StartHeight"])) {
						return false
					}
					for n, v := range m {
						if n != "Eon" && n != "StartEvent" && n != "StartHeight" && !zeroValue(v) {
							return false
						}
					}
					older := func(g *Facts) bool { return g.Lt(Fld(Idx(Is(list), Any), "Eon"), Fld(ev, "Eon")) }
					ln := polyOf(&Expr{Op: "len", Args: []*Expr{list}})
					return f.All(func(x *Expr) bool {
						return x.Key() == list.Key() || x.Op == "part" && x.S == "up" && x.Args[0].Key() == list.Key() && (f.PolyLe(ln, polyOf(x.Args[1])) || f.Eq(Is(x.Args[1]), Len(Is(list))))
					}, older) || f.Eq(Len(Is(list)), Num(0)) || f.Lt(Fld(Idx(Is(list), func(i *Expr) bool { return polyEq(polyOf(i), ln.add(polyConst(1), -1)) }), "Eon"), Fld(ev, "Eon"))
				}
				// the lists of an eon
				if !evIs(k)(elem) || list.Op != "field" {
					return false
				}
				eon := list.Args[0]
				return Idx(Fld(Any, "Eons"), Any)(eon) && sameValue(f, Fld(Is(eon), "Eon"), Fld(Is(elem), "Eon"))
			}, "the event is not added to the list it belongs to, or not as it is, or not to its own eon or batch")
			c.effective(e, s, k)
		}
	}
}

// effective: unless the event is refused with an error, the effect takes place.
func (c *Ctx) effective(e *Engine, s *CSite, kind string) {
	isKind := func(x *Expr) bool { return x.Op == "istype" && strings.HasSuffix(x.S, "shutterevents."+kind) }
	fn := s.Fn
	sum := e.Summary(fn)
	at := s.In.Block()
	ok := true
	for _, b := range fn.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || at.Dominates(b) {
			continue
		}
		// a return without the effect: another kind of event, or an error
		for _, o := range sum.Outs {
			if o.In != ssa.Instruction(r) {
				continue
			}
			n := len(o.Results)
			refused := n > 0 && isErrType(o.Results[n-1]) && !Nil(o.Results[n-1])
			other := o.Facts.False(isKind) || o.Facts.True(func(x *Expr) bool { return x.Op == "istype" && strings.Contains(x.S, "shutterevents.") && !isKind(x) })
			failed := exists(o.Facts.dids(Any), func(d *Expr) bool { return o.Facts.NonNil(Ext(Is(d), 1)) }) || absent(o.Facts, Fld(Any, "Eons"), "Eon", Fld(evIs(kind), "Eon"))
			_, f, _ := keptIn(s.In)
			if !refused && !other && !failed && !o.Facts.Did(Call("store:"+f)) && !(s.Kind == "mapupdate" && o.Facts.Did(Call("mapupdate:KeyperEncryptionKeys"))) {
				ok = false
			}
		}
	}
	c.must(ok, "event effect", kind+" in "+fnName(fn), "the function returns without an error and without the effect of the event")
	// the callers
	p := append(append([]*Site{}, s.Path...), s.Site)
	for i := len(p) - 2; i >= 0; i-- {
		g := p[i].Fn
		isSwitch := false
		n, good := 0, true
		c.ends(e, g, p[i].In.Block(), func(w string, f *Facts) {
			if f.True(isKind) {
				isSwitch = true
				n++
				good = good && f.Did(func(x *Expr) bool { return x.Op == "call" && x.S == p[i].Name })
			}
		})
		if isSwitch {
			c.must(good, "event effect", kind+" in "+fnName(g), "the event is recognised but not handed to the function that records it")
			return
		}
		if inPkg(g, "shuttermint/keyper/observe") && nameEnds(p[i].Name, "shutterevents.MakeEvent") {
			return
		}
	}
}
