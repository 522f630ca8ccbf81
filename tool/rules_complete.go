package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Nothing is left out: in the loops around a call every iteration makes the call, or there is a
// reason for which the property allows the element to be skipped; and the loops are not left early.

type complete struct {
	e    *Engine
	rule string
	what string
	elem func(t types.Type) bool // loops over lists with these elements are checked
	did  M                       // the call
	skip func(f *Facts) bool     // reasons to skip an element
	done bool                    // the loop may be left after the call
}

// loopElem returns the type of the elements of the list that a loop runs over.
func loopElem(h *ssa.BasicBlock, l map[*ssa.BasicBlock]bool) types.Type {
	for b := range l {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !isLoopExit(b, l) {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS && cmp.Op != token.NEQ && cmp.Op != token.GTR && cmp.Op != token.GEQ && cmp.Op != token.LEQ {
			continue
		}
		for _, x := range []ssa.Value{cmp.Y, cmp.X} {
			if t := lenElem(x); t != nil {
				return t
			}
		}
	}
	return nil
}

func lenElem(v ssa.Value) types.Type {
	switch x := v.(type) {
	case *ssa.Convert:
		return lenElem(x.X)
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return nil
		}
		if s, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

// check examines the loops around s, in its function and those of its callers.
func (k *complete) check(c *Ctx, s *CSite) {
	in, did := s.In, k.did
	var through []*ssa.Function
	for i := len(s.Path); i >= 0; i-- {
		fn := in.Parent()
		inLoop := false
		for _, l := range k.e.Summary(fn).Loops {
			if !l.Body[in.Block()] {
				continue
			}
			t := loopElem(l.Head, l.Body)
			if t == nil || !k.elem(t) {
				continue
			}
			inLoop = true
			where := k.what + " in the loop over " + typeBase(t) + " in " + fnName(fn)
			c.must(!leavesLoop(l.Head, l.Body, func(b *ssa.BasicBlock) bool {
				return k.done && (in.Block() == b || in.Block().Dominates(b))
			}), k.rule, where, "the loop may be left although there are more elements")
			inner := false
			for _, q := range k.e.Summary(fn).Loops {
				if q != l && l.Body[q.Head] && q.Body[in.Block()] {
					if t := loopElem(q.Head, q.Body); t != nil && k.elem(t) {
						inner = true
					}
				}
			}
			for _, ed := range l.Edges {
				if !ed.Back {
					continue
				}
				ok := k.e.Implies(ed.Facts, func(f *Facts) bool {
					return f.Did(did) || inner && f.All(Any, func(*Facts) bool { return true }) && k.listed(f) || k.skip(f)
				})
				if !c.must(ok, k.rule, where, "an element may be skipped; known then:\n        "+shortFacts(ed.Facts, false)) {
					break
				}
			}
		}
		if !inLoop && len(through) < 3 && k.loopAbove(s, i) {
			for _, o := range k.e.Summary(fn).Outs {
				ok := k.e.Implies(o.Facts, func(f *Facts) bool { return f.Did(did) || k.skip(f) })
				if !c.must(ok, k.rule, k.what+" in "+fnName(fn), "an element may be skipped; known then:\n        "+shortFacts(o.Facts, false)) {
					break
				}
			}
		}
		through = append(through, fn)
		if i > 0 {
			in = s.Path[i-1].In
			did = Or(did, Call(fnName(fn)))
		}
	}
}

// listed: a loop over one of the lists was completed.
func (k *complete) listed(f *Facts) bool {
	return f.All(func(l *Expr) bool {
		if l.T == nil || l.Op == "part" {
			return false
		}
		s, ok := l.T.Underlying().(*types.Slice)
		return ok && k.elem(s.Elem())
	}, func(*Facts) bool { return true })
}

// loopAbove: one of the calls that lead here is made in a loop over such elements.
func (k *complete) loopAbove(s *CSite, i int) bool {
	for ; i > 0; i-- {
		in := s.Path[i-1].In
		for _, l := range k.e.Summary(in.Parent()).Loops {
			if t := loopElem(l.Head, l.Body); l.Body[in.Block()] && t != nil && k.elem(t) {
				return true
			}
		}
	}
	return false
}
