package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CAlt is what is known on one group of paths from the root of a walk to a site. All expressions
// are in terms of the root's parameters.
type CAlt struct {
	Facts  *Facts
	Args   []*Expr
	Target *Expr
	FnExpr *Expr
	Res    *Expr
	W      *Write
	// what may have been written on the way from the root's entry
	Written map[string]*Write
}

type base struct {
	F *Facts
	W map[string]*Write
}

// CSite is a site reached in a particular calling context.
type CSite struct {
	*Site
	Path  []*Site // call sites from the root
	Alts  []*CAlt
	Async bool // reached via go, or via a closure passed to unknown code
}

func (c *CSite) where(p *Program) string {
	var b strings.Builder
	for _, s := range c.Path {
		b.WriteString(p.pos(s.In) + " → ")
	}
	b.WriteString(p.pos(c.In) + " (" + fnName(c.Fn) + ")")
	return b.String()
}

const maxBase = 96

type walker struct {
	e       *Engine
	visit   func(*CSite)
	enter   func(fn *ssa.Function, path []*Site) bool
	active  map[*ssa.Function]bool
	fns     map[*ssa.Function]bool
	nSites  int
	nAlts   int
	skipped int
	lost    int
}

// Walk visits all sites reachable from root through resolved calls. enter (optional) may refuse to
// descend into a function.
// walked is a recorded walk.
type walked struct {
	w     *walker
	sites []*CSite
}

func (e *Engine) Walk(root *ssa.Function, enter func(fn *ssa.Function, path []*Site) bool, visit func(*CSite)) *walker {
	if c := e.walks[root]; c != nil && enter == nil {
		for _, s := range c.sites {
			visit(s)
		}
		return c.w
	}
	var rec []*CSite
	w := &walker{e: e, visit: visit, enter: enter, active: map[*ssa.Function]bool{}, fns: map[*ssa.Function]bool{}}
	if enter == nil {
		w.visit = func(s *CSite) {
			rec = append(rec, s)
			visit(s)
		}
	}
	w.fn(root, []*base{{F: noFacts}}, &subst{m: map[string]*Expr{}}, nil, false)
	if enter == nil {
		if e.walks == nil {
			e.walks = map[*ssa.Function]*walked{}
		}
		e.walks[root] = &walked{w, rec}
	}
	return w
}

func (w *walker) compose(bases []*base, alts []*Alt, sb *subst, st *Site) []*CAlt {
	var res []*CAlt
	bs := bases
	if len(bs)*len(alts) > 512 {
		bs = []*base{mergeBases(bs)}
		w.lost++
	}
	for _, al := range alts {
		var ws []*Write
		for _, x := range sortedWrites(al.Written) {
			ws = append(ws, &Write{Obj: x.Obj, Base: sb.expr(x.Base), Elem: x.Elem})
		}
		lf := al.Facts.subst(sb)
		if lf == nil {
			continue
		}
		var args []*Expr
		var target, fe, rs *Expr
		args = sb.exprs(al.Args)
		target, fe = sb.expr(al.Target), sb.expr(al.FnExpr)
		rs = sb.expr(al.Res)
		var wr *Write
		if al.W != nil {
			wr = &Write{Obj: al.W.Obj, Base: sb.expr(al.W.Base), Elem: al.W.Elem}
		}
		for _, b := range bs {
			f := b.F
			if len(ws) > 0 {
				f = f.filter(func(x *Fact) bool {
					for _, y := range ws {
						if w.e.factKilled(x, y) {
							return false
						}
					}
					return true
				})
			}
			f = f.addAll(lf)
			if f == nil {
				continue
			}
			wm := b.W
			if len(ws) > 0 {
				wm = copyW(b.W)
				for _, x := range ws {
					wm[x.key()] = x
				}
			}
			res = append(res, &CAlt{Facts: f, Args: args, Target: target, FnExpr: fe, Res: rs, W: wr, Written: wm})
		}
	}
	return res
}

// mergeBases keeps only what all callers agree on.
func mergeBases(bs []*base) *base {
	m := &base{F: bs[0].F, W: copyW(bs[0].W)}
	for _, b := range bs[1:] {
		m.F = m.F.intersect(b.F)
		for k, x := range b.W {
			m.W[k] = x
		}
	}
	return m
}

func dedupeBases(bs []*base) []*base {
	seen := map[string]*base{}
	var r []*base
	for _, b := range bs {
		k := b.F.String()
		if o := seen[k]; o != nil {
			o.W = copyW(o.W)
			for x, y := range b.W {
				o.W[x] = y
			}
			continue
		}
		n := &base{b.F, b.W}
		seen[k] = n
		r = append(r, n)
	}
	return r
}

func dedupe(fs []*Facts) []*Facts {
	seen := map[string]bool{}
	var r []*Facts
	for _, f := range fs {
		k := f.String()
		if !seen[k] {
			seen[k] = true
			r = append(r, f)
		}
	}
	return r
}

func (w *walker) fn(fn *ssa.Function, bs []*base, sb *subst, path []*Site, async bool) {
	if w.active[fn] || len(path) > 40 {
		w.skipped++
		return
	}
	if w.enter != nil && len(path) > 0 && !w.enter(fn, path) {
		return
	}
	var args []*Expr
	if len(path) > 0 {
		for i := range fn.Params {
			x := sb.m[fmt.Sprintf("$%d", i)]
			if x == nil {
				x = paramExpr(fn.Params[i], i)
			}
			args = append(args, x)
		}
	}
	var fe *Expr
	if len(path) > 0 && len(fn.FreeVars) > 0 {
		fe = &Expr{Op: "closure", Fn: fn}
		for i := range fn.FreeVars {
			x := sb.m[fmt.Sprintf("$f%d", i)]
			if x == nil {
				x = &Expr{Op: "free", S: fmt.Sprintf("$f%d", i), T: fn.FreeVars[i].Type()}
			}
			fe.Args = append(fe.Args, x)
		}
	}
	sum := w.e.summaryFor(fn, args, fe)
	if sum == nil {
		return
	}
	w.active[fn] = true
	defer delete(w.active, fn)
	w.fns[fn] = true
	for _, st := range sum.Sites {
		alts := w.compose(bs, st.Alts, sb, st)
		if len(alts) == 0 {
			continue
		}
		w.nSites++
		w.nAlts += len(alts)
		w.visit(&CSite{Site: st, Path: path, Alts: alts, Async: async})
		if st.Kind != "call" && st.Kind != "go" {
			continue
		}
		w.descend(st, alts, sb, path, async)
	}
}

func argMap(args []*Expr, fe *Expr) map[string]*Expr {
	m := map[string]*Expr{}
	for i := range args {
		m[fmt.Sprintf("$%d", i)] = args[i]
		if x := args[i]; x.Op == "closure" {
			for j, b := range x.Args {
				m[fmt.Sprintf("$%df%d", i, j)] = b
			}
		}
	}
	if fe != nil && fe.Op == "closure" {
		for i, b := range fe.Args {
			m[fmt.Sprintf("$f%d", i)] = b
			if b.Op == "closure" {
				for j, y := range b.Args {
					m[fmt.Sprintf("$f%df%d", i, j)] = y
				}
			}
		}
	}
	return m
}

func (w *walker) descend(st *Site, alts []*CAlt, sb *subst, path []*Site, async bool) {
	p := w.e.P
	npath := append(path[:len(path):len(path)], st)
	ctx := "@" + shortFn(st.Fn) + "." + siteName(st.In) + sb.ctx
	isGo := st.Kind == "go"
	if isGo {
		ctx = "@go" + ctx
	}
	// the same callee may be reached with different arguments: group
	type grp struct {
		fn    *ssa.Function
		args  []*Expr
		fe    *Expr
		bases []*base
	}
	groups := map[string]*grp{}
	kinds := map[string]map[string]bool{}
	var order []string
	add := func(fn *ssa.Function, args []*Expr, fe *Expr, f *base) {
		k := fn.String() + "|" + argKeys(args)
		if fe != nil {
			k += "|" + fe.Key()
		}
		// objects that differ in their contents only, unless there are too many of them
		if ck := contents(args, 0); ck != "" {
			if kinds[k] == nil {
				kinds[k] = map[string]bool{}
			}
			if kinds[k][ck] || len(kinds[k]) < maxContents {
				kinds[k][ck] = true
				k += "|" + ck
			}
		}
		g := groups[k]
		if g == nil {
			g = &grp{fn: fn, args: args, fe: fe}
			groups[k] = g
			order = append(order, k)
		}
		g.bases = append(g.bases, f)
	}
	var cc *ssa.CallCommon
	if ci, ok := st.In.(ssa.CallInstruction); ok {
		cc = ci.Common()
	}
	asyncs := map[string]bool{}
	for _, al := range alts {
		callee := st.Callee
		if callee == nil && al.FnExpr != nil && (al.FnExpr.Op == "closure" || al.FnExpr.Op == "func") {
			callee = al.FnExpr.Fn
		}
		switch {
		case callee != nil && isSource(callee) && p.InRepo(callee):
			add(callee, al.Args, al.FnExpr, &base{al.Facts, al.Written})
		case cc != nil && cc.IsInvoke():
			for _, t := range p.Callees(cc) {
				if p.InRepo(t) {
					add(t, al.Args, nil, &base{al.Facts, al.Written})
				}
			}
		}
		// functions passed to code that is not in the repository
		if callee == nil || !isSource(callee) || !p.InRepo(callee) {
			for _, x := range al.Args {
				if (x.Op == "closure" || x.Op == "func") && x.Fn != nil && isSource(x.Fn) && p.InRepo(x.Fn) {
					var ps []*Expr
					for i := range x.Fn.Params {
						ps = append(ps, &Expr{Op: "opaque", S: fmt.Sprintf("cbarg.%s.%d", shortFn(x.Fn), i), T: x.Fn.Params[i].Type()})
					}
					off := 0
					if strings.HasSuffix(x.Fn.Name(), "$bound") {
						_ = off
					}
					f := &base{al.Facts, al.Written}
					k := x.Fn.String() + "|" + argKeys(ps) + "|" + x.Key()
					asyncs[k] = true
					add(x.Fn, ps, x, f)
				}
			}
		}
	}
	for _, k := range order {
		g := groups[k]
		fs := dedupeBases(g.bases)
		if len(fs) > maxBase {
			fs = []*base{mergeBases(fs)}
			w.lost++
		}
		as := async || isGo || asyncs[k]
		if isGo || asyncs[k] {
			// the function runs later: nothing that is known about mutable memory can be relied upon,
			// only what has happened and facts about immutable values
			for i, f := range fs {
				fs[i] = &base{W: f.W, F: f.F.filter(func(x *Fact) bool {
					return x.Op == "did" || !x.mentions(func(y *Expr) bool {
						return y.Op == "field" || y.Op == "index" || y.Op == "has" || y.Op == "len" || y.Op == "global"
					})
				})}
			}
		}
		am := argMap(g.args, g.fe)
		if sum := w.e.summaryFor(g.fn, g.args, g.fe); sum != nil {
			forgetWritten(am, sum)
		}
		w.fn(g.fn, fs, &subst{m: am, ctx: ctx}, npath, as)
	}
}

// ---- helpers used by rules ----

// isField reports whether e is field name of a struct type named typ ("" = any).
func isField(e *Expr, typ, name string) bool {
	if e == nil || e.Op != "field" || e.S != name {
		return false
	}
	return typ == "" || ownerOf(e) == typ
}

// ownerOf returns the name of the struct type a field expression selects from.
func ownerOf(e *Expr) string {
	v, ok := e.Obj.(*types.Var)
	if !ok {
		return ""
	}
	return fieldOwner[v]
}

// fieldOwner maps struct fields to their (package-qualified) type name.
var fieldOwner = map[*types.Var]string{}

// IndexFields fills fieldOwner for all named struct types of the program.
func (p *Program) IndexFields() {
	for _, t := range p.named {
		n, ok := t.(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := fieldOwner[f]; !ok {
				fieldOwner[f] = n.Obj().Pkg().Name() + "." + n.Obj().Name()
			}
		}
	}
}

const maxContents = 4

// contents describes what is known about the contents of objects, which is not part of their keys.
func contents(xs []*Expr, depth int) string {
	var b strings.Builder
	for _, x := range xs {
		if x == nil {
			continue
		}
		if x.Op == "alloc" && len(x.Fields) > 0 && depth < 4 {
			names := make([]string, 0, len(x.Fields))
			for n := range x.Fields {
				names = append(names, n)
			}
			sort.Strings(names)
			b.WriteString(x.S + "{")
			for _, n := range names {
				f := x.Fields[n]
				b.WriteString(n + ":" + f.Key() + contents([]*Expr{f}, depth+1) + ";")
			}
			b.WriteString("}")
		} else if depth < 4 && len(x.Args) > 0 {
			b.WriteString(contents(x.Args, depth+1))
		}
	}
	return b.String()
}
