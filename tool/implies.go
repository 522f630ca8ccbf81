package main

import (
	"fmt"
	"hash/fnv"
)

// Implies reports whether pred follows from the facts, if necessary by distinguishing the ways in
// which calls that are mentioned in the facts can have returned.
func (e *Engine) Implies(f *Facts, pred func(*Facts) bool) bool { return e.implies(f, pred, 2) }

func (e *Engine) implies(f *Facts, pred func(*Facts) bool, depth int) bool {
	if pred(f) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, k := range f.keys() {
		x := f.m[k]
		if x == nil || x.Op == "did" || x.Op == "forall" {
			continue
		}
		for _, ax := range x.A {
			for _, ce := range callsIn(ax, 0) {
				if ce.Fn == nil || !isSource(ce.Fn) || !e.P.InRepo(ce.Fn) {
					continue
				}
				if e.byCases(f, x, ce, pred, depth) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) byCases(f *Facts, x *Fact, ce *Expr, pred func(*Facts) bool, depth int) bool {
	sum := e.Summary(ce.Fn)
	if sum == nil || len(sum.Outs) == 0 {
		return false
	}
	sb := &subst{m: argMap(ce.Args, nil), ctx: caseOf(ce)}
	n := 0
	for _, o := range sum.Outs {
		of := o.Facts.subst(sb)
		if of == nil {
			continue
		}
		oo := &Outcome{Results: sb.exprs(o.Results), Facts: of}
		y := x.subst(&subst{rep: resultRep(ce, oo)})
		if y == nil || y.eval() < 0 {
			continue
		}
		if of = of.add(y); of == nil {
			continue
		}
		all := f.addAll(of)
		if all == nil {
			continue
		}
		n++
		if n > 24 || !e.implies(all, pred, depth-1) {
			return false
		}
	}
	return n > 0
}

// caseOf distinguishes what different calls do.
func caseOf(ce *Expr) string {
	h := fnv.New64a()
	h.Write([]byte(ce.Key()))
	return fmt.Sprintf("@case%x", h.Sum64())
}

// callsIn returns the calls whose results x is computed from by arithmetic.
func callsIn(x *Expr, depth int) []*Expr {
	switch {
	case x.Op == "call":
		return []*Expr{x}
	case x.Op == "ext" && x.Args[0].Op == "call":
		return []*Expr{x.Args[0]}
	case x.Op == "bin" && depth < 4:
		switch x.S {
		case "+", "-", "*", "/", "%":
			return append(callsIn(x.Args[0], depth+1), callsIn(x.Args[1], depth+1)...)
		}
		return nil
	}
	if y := wrapped(x); y != x && y != nil {
		return callsIn(y, depth)
	}
	return nil
}
