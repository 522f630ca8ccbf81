package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Polynomials over access paths, to compare sums and products independently of how they are
// written. Values are integers; wrapping arithmetic is a ring, so equal polynomials are equal values.
type poly map[string]int64

func polyConst(n int64) poly { return poly{"": n} }

func polyOf(e *Expr) poly {
	e = strip(e)
	if e == nil {
		return polyConst(0)
	}
	if n, ok := smallInt(e); ok {
		return polyConst(n)
	}
	if e.Op == "bin" {
		switch e.S {
		case "+":
			return polyOf(e.Args[0]).add(polyOf(e.Args[1]), 1)
		case "-":
			return polyOf(e.Args[0]).add(polyOf(e.Args[1]), -1)
		case "*":
			return polyOf(e.Args[0]).mul(polyOf(e.Args[1]))
		}
	}
	if e.Op == "len" && len(e.Args) == 1 {
		if s := e.Args[0]; s.Op == "slice" && len(s.Args) == 4 && (s.T == nil || !isString(s.T)) {
			// the length of x[lo:hi]
			hi := polyOf(s.Args[2])
			if noBound(s.Args[2]) {
				hi = polyOf(&Expr{Op: "len", Args: s.Args[:1], T: e.T})
			}
			if !noBound(s.Args[1]) {
				hi = hi.add(polyOf(s.Args[1]), -1)
			}
			return hi
		}
	}
	return poly{e.Key(): 1}
}

func noBound(e *Expr) bool { return e == nil || e.Op == "const" && e.S == "_" }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (p poly) add(q poly, f int64) poly {
	r := poly{}
	for k, n := range p {
		r[k] += n
	}
	for k, n := range q {
		r[k] += f * n
	}
	for k, n := range r {
		if n == 0 {
			delete(r, k)
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for k, n := range p {
		for l, m := range q {
			var ks []string
			if k != "" {
				ks = append(ks, strings.Split(k, "∗")...)
			}
			if l != "" {
				ks = append(ks, strings.Split(l, "∗")...)
			}
			sort.Strings(ks)
			r[strings.Join(ks, "∗")] += n * m
		}
	}
	for k, n := range r {
		if n == 0 {
			delete(r, k)
		}
	}
	return r
}

// constant returns the value of a constant polynomial.
func (p poly) constant() (int64, bool) {
	for k := range p {
		if k != "" {
			return 0, false
		}
	}
	return p[""], true
}

func polyEq(a, b poly) bool { n, ok := a.add(b, -1).constant(); return ok && n == 0 }

// PolyLe: the facts imply a <= b, by adding up at most two of them.
func (fs *Facts) PolyLe(a, b poly) bool {
	d := b.add(a, -1)
	return fs.notNegative(d) || fs.notNegative(d.lower())
}

func (fs *Facts) notNegative(d poly) bool {
	if n, ok := d.constant(); ok {
		return n >= 0
	}
	var qs []poly
	known := map[string]int64{}
	for _, f := range fs.m {
		if f.Op == "eq" && f.A[1].Op == "const" {
			if n, ok := smallInt(f.A[1]); ok {
				known[strip(f.A[0]).Key()] = n
			}
		}
	}
	ground := func(p poly) poly {
		r := p
		for k, n := range p {
			if m, ok := known[k]; ok && k != "" {
				r = r.add(poly{k: n}, -1).add(polyConst(n*m), 1)
			}
		}
		return r
	}
	d = ground(d)
	if n, ok := d.constant(); ok {
		return n >= 0
	}
	for _, f := range fs.m {
		switch f.Op {
		case "le":
			qs = append(qs, polyOf(f.A[1]).add(polyOf(f.A[0]), -1))
		case "lt":
			qs = append(qs, polyOf(f.A[1]).add(polyOf(f.A[0]), -1).add(polyConst(1), -1))
		case "eq":
			if f.A[1].Op == "nil" || f.A[0].Op == "nil" {
				continue
			}
			q := polyOf(f.A[1]).add(polyOf(f.A[0]), -1)
			qs = append(qs, q, poly{}.add(q, -1))
		}
	}
	share := func(x, y poly) bool {
		for k := range x {
			if _, ok := y[k]; ok && k != "" {
				return true
			}
		}
		return false
	}
	for i := range qs {
		qs[i] = ground(qs[i])
	}
	var near []poly
	for _, q := range qs {
		if !share(d, q) {
			continue
		}
		r := d.add(q, -1)
		if n, ok := r.constant(); ok && n >= 0 {
			return true
		}
		near = append(near, r)
	}
	for _, r := range near {
		for _, q := range qs {
			if !share(r, q) {
				continue
			}
			if n, ok := r.add(q, -1).constant(); ok && n >= 0 {
				return true
			}
		}
	}
	return false
}

// lower replaces counters that only go up by the smallest values they have.
func (p poly) lower() poly {
	r := p
	for k, n := range p {
		i := strings.LastIndex(k, "≥")
		if n <= 0 || i < 0 {
			continue
		}
		if m, err := strconv.ParseInt(k[i+len("≥"):], 10, 64); err == nil && !strings.ContainsAny(k, "∗ ,") {
			r = r.add(poly{k: n}, -1).add(polyConst(n*m), 1)
		}
	}
	return r
}

// PolyLt: the facts imply a < b.
func (fs *Facts) PolyLt(a, b poly) bool { return fs.PolyLe(a.add(polyConst(1), 1), b) }

// sel is the field of a value.
func sel(x *Expr, name string) *Expr {
	if m := structFields(x); m != nil {
		if v, ok := m[name]; ok {
			return v
		}
	}
	return &Expr{Op: "field", S: name, Args: []*Expr{x}}
}

func path(x *Expr, names ...string) *Expr {
	for _, n := range names {
		x = sel(x, n)
	}
	return x
}
