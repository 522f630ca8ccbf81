package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Algebraic normal forms: numbers as polynomials over atoms, group elements as linear combinations of base
// points, sequences as concatenations of segments. Two values with the same key are equal for every input.

type val interface{ key() string }

// atom is a value that is not interpreted further, or a binder (sum, prod).
type atom struct {
	op, s string
	args  []val
	k     string
}

func (a *atom) key() string {
	if a.k == "" {
		ks := make([]string, len(a.args))
		for i, x := range a.args {
			ks[i] = x.key()
		}
		a.k = a.op
		if a.s != "" {
			a.k += ":" + a.s
		}
		if len(ks) > 0 {
			a.k += "(" + strings.Join(ks, ", ") + ")"
		}
	}
	return a.k
}

type nilv struct{}

func (nilv) key() string { return "nil" }

// errv is an error that is not nil.
type errv struct{ k string }

func (e errv) key() string { return "error:" + e.k }

// cerr is an error if a condition holds, and nil otherwise.
type cerr struct{ b *boolv }

func (e *cerr) key() string { return "error if " + e.b.key() }

type boolv struct {
	c   *bool
	a   *atom
	neg bool
}

func (b *boolv) key() string {
	if b.c != nil {
		return strconv.FormatBool(*b.c)
	}
	if b.neg {
		return "!" + b.a.key()
	}
	return b.a.key()
}
func constBool(b bool) *boolv { return &boolv{c: &b} }
func (b *boolv) not() *boolv {
	if b.c != nil {
		return constBool(!*b.c)
	}
	return &boolv{a: b.a, neg: !b.neg}
}

// ptr points to an object of the heap, or an element of it.
type ptr struct {
	obj string
	idx *num // element
	// the condition under which it is nil
	nilIf *boolv
}

func (p *ptr) key() string {
	if p.nilIf != nil {
		return "&" + p.obj + " unless " + p.nilIf.key()
	}
	if p.idx != nil {
		return "&" + p.obj + "[" + p.idx.key() + "]"
	}
	return "&" + p.obj
}

// sref is a slice.
type sref struct {
	obj    string
	lo, hi *num
	full   bool // nothing can be appended in place
}

func (s *sref) key() string { return s.obj + "[" + s.lo.key() + ":" + s.hi.key() + "]" }

// box is the content of an object that a list element points to.
type box struct{ v val }

func (b *box) key() string { return "&(" + b.v.key() + ")" }

type strct struct {
	names []string
	f     map[string]val
}

func (s *strct) key() string {
	var r []string
	for _, n := range s.names {
		r = append(r, n+"="+s.f[n].key())
	}
	return "{" + strings.Join(r, ", ") + "}"
}

// ---- numbers

type factor struct {
	a *atom
	e *num
}
type mono struct {
	c *big.Int
	f []factor // sorted by key of a
}

func (m *mono) fkey() string {
	var r []string
	for _, f := range m.f {
		k := f.a.key()
		if ek := f.e.key(); ek != "1" {
			k += "^(" + ek + ")"
		}
		r = append(r, k)
	}
	return strings.Join(r, "*")
}

type num struct {
	m    map[string]*mono
	modq bool // known modulo the order only
	red  bool // reduced modulo the order
	k    string
}

func (n *num) key() string {
	if n.k == "" {
		var ks []string
		for k := range n.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []string
		for _, k := range ks {
			c := n.m[k].c.String()
			switch {
			case k == "":
				r = append(r, c)
			case c == "1":
				r = append(r, k)
			default:
				r = append(r, c+"*"+k)
			}
		}
		if len(r) == 0 {
			r = []string{"0"}
		}
		n.k = strings.Join(r, "+")
	}
	return n.k
}
func (n *num) add1(m *mono) {
	k := m.fkey()
	if o := n.m[k]; o != nil {
		c := new(big.Int).Add(o.c, m.c)
		if c.Sign() == 0 {
			delete(n.m, k)
			return
		}
		n.m[k] = &mono{c, o.f}
		return
	}
	if m.c.Sign() != 0 {
		n.m[k] = m
	}
}
func newNum() *num { return &num{m: map[string]*mono{}} }
func numI(i int64) *num {
	n := newNum()
	n.add1(&mono{c: big.NewInt(i)})
	return n
}
func numA(a *atom) *num {
	n := newNum()
	n.add1(&mono{c: big.NewInt(1), f: []factor{{a, numI(1)}}})
	return n
}
func (n *num) isConst() (*big.Int, bool) {
	if len(n.m) == 0 {
		return big.NewInt(0), true
	}
	if m := n.m[""]; m != nil && len(n.m) == 1 {
		return m.c, true
	}
	return nil, false
}
func (n *num) isInt(i int64) bool {
	c, ok := n.isConst()
	return ok && c.IsInt64() && c.Int64() == i
}

// theAtom returns the atom that n consists of.
func (n *num) theAtom() *atom {
	if len(n.m) != 1 {
		return nil
	}
	for _, m := range n.m {
		if m.c.Cmp(big.NewInt(1)) == 0 && len(m.f) == 1 && m.f[0].e.isInt(1) {
			return m.f[0].a
		}
	}
	return nil
}
func addN(a, b *num) *num {
	r := newNum()
	r.modq = a.modq || b.modq
	for _, m := range a.m {
		r.add1(m)
	}
	for _, m := range b.m {
		r.add1(m)
	}
	return r.peel()
}
func scaleN(a *num, c *big.Int) *num {
	r := newNum()
	r.modq = a.modq
	for _, m := range a.m {
		r.add1(&mono{new(big.Int).Mul(m.c, c), m.f})
	}
	return r
}
func negN(a *num) *num    { return scaleN(a, big.NewInt(-1)) }
func subN(a, b *num) *num { return addN(a, negN(b)) }

func mulMono(a, b *mono) *mono {
	r := &mono{c: new(big.Int).Mul(a.c, b.c)}
	i, j := 0, 0
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j == len(b.f) || i < len(a.f) && a.f[i].a.key() < b.f[j].a.key():
			r.f = append(r.f, a.f[i])
			i++
		case i == len(a.f) || b.f[j].a.key() < a.f[i].a.key():
			r.f = append(r.f, b.f[j])
			j++
		default:
			if e := addN(a.f[i].e, b.f[j].e); !e.isInt(0) {
				r.f = append(r.f, factor{a.f[i].a, e})
			}
			i, j = i+1, j+1
		}
	}
	return r
}
func mulN(a, b *num) *num {
	r := newNum()
	r.modq = a.modq || b.modq
	for _, x := range a.m {
		for _, y := range b.m {
			for _, z := range mergeProducts(mulMono(x, y)) {
				r.add1(z)
			}
		}
	}
	return r
}

// powN is x to the power of e.
func powN(x, e *num) *num {
	if e.isInt(0) {
		return numI(1)
	}
	if e.isInt(1) {
		return x
	}
	if c, ok := x.isConst(); ok && c.IsInt64() && c.Int64() == 1 {
		return x
	}
	if len(x.m) == 1 {
		for _, m := range x.m {
			if m.c.Cmp(big.NewInt(1)) == 0 {
				r := newNum()
				r.modq = x.modq
				f := make([]factor, len(m.f))
				for i, y := range m.f {
					f[i] = factor{y.a, mulN(y.e, e)}
				}
				r.add1(&mono{big.NewInt(1), f})
				return r
			}
		}
	}
	if c, ok := e.isConst(); ok && c.IsInt64() && c.Int64() > 0 && c.Int64() < 8 {
		r := x
		for i := int64(1); i < c.Int64(); i++ {
			r = mulN(r, x)
		}
		return r
	}
	// the atom stands for the number itself
	r := newNum()
	r.modq = x.modq
	r.add1(&mono{big.NewInt(1), []factor{{&atom{op: "poly", args: []val{x}}, e}}})
	return r
}

// invN is the inverse modulo the order, with a canonical sign.
func invN(x *num) *num {
	if len(x.m) == 1 {
		for _, m := range x.m {
			if len(m.f) > 0 && m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
				r := newNum()
				var f []factor
				for _, y := range m.f {
					if y.a.op == "prod" {
						if z := invProd(y); z != nil {
							f = append(f, *z)
							continue
						}
					}
					f = append(f, factor{y.a, negN(y.e)})
				}
				sort.Slice(f, func(i, j int) bool { return f[i].a.key() < f[j].a.key() })
				r.add1(&mono{m.c, f})
				r.modq = true
				return r
			}
		}
	}
	var ks []string
	for k := range x.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	neg := len(ks) > 0 && x.m[ks[len(ks)-1]].c.Sign() < 0
	if neg {
		x = negN(x)
	}
	y := *x
	y.modq, y.red, y.k = true, false, ""
	r := newNum()
	r.add1(&mono{big.NewInt(1), []factor{{&atom{op: "poly", args: []val{&y}}, numI(-1)}}})
	if neg {
		r = negN(r)
	}
	r.modq = true
	return r
}

func mkLen(v val) *num {
	switch x := v.(type) {
	case *seq:
		r := numI(0)
		for _, s := range x.segs {
			r = addN(r, s.length())
		}
		return r
	case nilv:
		return numI(0)
	case *atom:
		return numA(&atom{op: "len", args: []val{x}})
	}
	return numA(&atom{op: "len", args: []val{v}})
}

func mkDiv(x *num, c *big.Int) *num {
	if k, ok := x.isConst(); ok && k.Sign() >= 0 {
		return constNum(new(big.Int).Div(k, c))
	}
	// pull out multiples
	q, r := newNum(), newNum()
	for _, m := range x.m {
		d, md := new(big.Int).DivMod(m.c, c, new(big.Int))
		if len(m.f) > 0 && md.Sign() != 0 {
			d, md = big.NewInt(0), m.c
		}
		if d.Sign() != 0 {
			q.add1(&mono{d, m.f})
		}
		if md.Sign() != 0 {
			r.add1(&mono{md, m.f})
		}
	}
	if len(r.m) == 0 {
		return q
	}
	if k, ok := r.isConst(); ok {
		return addN(q, constNum(new(big.Int).Div(k, c)))
	}
	if ge0(r) && ge0(subN(constNum(new(big.Int).Sub(c, big.NewInt(1))), r)) {
		return q
	}
	return addN(q, numA(&atom{op: "div", s: c.String(), args: []val{r}}))
}
func constNum(c *big.Int) *num {
	n := newNum()
	n.add1(&mono{c: c})
	return n
}

// varHi holds inclusive upper bounds of numbers that count iterations (which are not negative).
var varHi = map[string]*num{}

// knownLow holds numbers that are known not to be negative on the current path.
var knownLow []*num

type multiple struct {
	x *num
	c *big.Int
}

var knownMult []multiple // numbers known to be divisible

// ge0 proves that p is not negative.
func ge0(p *num) bool { return ge0d(p, 0) }
func ge0d(p *num, depth int) bool {
	if c, ok := p.isConst(); ok {
		return c.Sign() >= 0
	}
	if depth > 6 {
		return false
	}
	// remainders
	for _, m := range p.m {
		if len(m.f) != 1 || !m.f[0].e.isInt(1) {
			continue
		}
		a := m.f[0].a
		if a.op == "div" {
			c, _ := new(big.Int).SetString(a.s, 10)
			q, r := new(big.Int).QuoRem(m.c, c, new(big.Int))
			if r.Sign() == 0 {
				// m = q*c*div(x, c) = q*(x - rem), 0 <= rem <= c-1
				rest := subN(p, func() *num { n := newNum(); n.add1(m); return n }())
				rest = addN(rest, scaleN(a.args[0].(*num), q))
				if t := knownRem(a.args[0].(*num), c); t != nil {
					rest = subN(rest, constNum(new(big.Int).Mul(q, t)))
				} else if q.Sign() > 0 {
					rest = subN(rest, constNum(new(big.Int).Mul(q, new(big.Int).Sub(c, big.NewInt(1)))))
				}
				if ge0d(rest, depth+1) {
					return true
				}
			}
		}
	}
	lowest := numI(0)
	for _, m := range p.m {
		single := newNum()
		single.add1(m)
		if len(m.f) == 0 {
			lowest = addN(lowest, single)
			continue
		}
		nonneg := true
		for _, f := range m.f {
			if !(nonNegAtom(f.a) && f.e.isInt(1)) {
				nonneg = false
			}
		}
		if nonneg && m.c.Sign() > 0 {
			continue
		}
		if len(m.f) == 1 && m.f[0].e.isInt(1) && m.c.Sign() < 0 {
			if hi := atomHi(m.f[0].a); hi != nil {
				rest := addN(subN(p, single), scaleN(hi, m.c))
				if ge0d(rest, depth+1) {
					return true
				}
			}
		}
		lowest = nil
		break
	}
	if lowest != nil {
		c, _ := lowest.isConst()
		if c.Sign() >= 0 {
			return true
		}
	}
	if depth < 4 {
		for _, k := range knownLow {
			// p = k*n + rest with rest not negative
			if r := subN(p, k); len(r.m) < len(p.m)+1 && r.key() != p.key() && ge0d(r, depth+2) {
				return true
			}
			for key, m := range k.m {
				if y := p.m[key]; y != nil && len(m.f) > 0 {
					if q, r := new(big.Int).QuoRem(y.c, m.c, new(big.Int)); r.Sign() == 0 && q.Cmp(big.NewInt(1)) > 0 && ge0d(subN(p, scaleN(k, q)), depth+2) {
						return true
					}
				}
			}
		}
	}
	return false
}

// knownRem is the remainder of y divided by c if it follows from what is known.
func knownRem(y *num, c *big.Int) *big.Int {
	for _, k := range knownMult {
		if k.c.Cmp(c) != 0 {
			continue
		}
		if t, ok := subN(y, k.x).isConst(); ok {
			return new(big.Int).Mod(t, c)
		}
	}
	return nil
}

func nonNegAtom(a *atom) bool {
	switch a.op {
	case "len", "byte", "iter", "nat", "os2ip":
		return true
	case "elem":
		return a.s == "byte"
	case "div":
		return ge0d(a.args[0].(*num), 4)
	}
	return false
}
func atomHi(a *atom) *num {
	switch a.op {
	case "byte":
		return numI(255)
	case "elem":
		if a.s == "byte" {
			return numI(255)
		}
	case "iter":
		return varHi[a.s]
	}
	return nil
}

// ---- sums and products over [lo, hi): args are lo, hi, body (and a condition)

var heightRE = regexp.MustCompile(`iter:#(\d+)`)

func height(vs ...val) int {
	h := 0
	for _, v := range vs {
		for _, m := range heightRE.FindAllStringSubmatch(v.key(), -1) {
			if n, _ := strconv.Atoi(m[1]); n > h {
				h = n
			}
		}
	}
	return h
}

var freshN int

func freshIter(hi *num) *atom {
	freshN++
	a := &atom{op: "iter", s: "f" + strconv.Itoa(freshN)}
	varHi[a.s] = hi
	return a
}

// bind renames the free iteration variable v to a canonical one.
func bind(v *atom, vs ...val) []val {
	h := &atom{op: "iter", s: "#" + strconv.Itoa(height(vs...)+1)}
	r := make([]val, len(vs))
	for i, x := range vs {
		r[i] = asub(x, map[string]val{v.key(): numA(h)})
	}
	return r
}

// unbind instantiates the bound variable of the values with x.
func unbind(x *num, vs ...val) []val {
	h := height(vs...)
	if h == 0 {
		return vs
	}
	// the outermost binder has the largest height, unless the body does not mention it
	r := make([]val, len(vs))
	for i, v := range vs {
		r[i] = asub(v, map[string]val{"iter:#" + strconv.Itoa(h): x})
	}
	return r
}

// binder is a value over a range with its variable made explicit: s holds the height.
func openBinder(a *atom, x *num) []val {
	r := make([]val, len(a.args)-2)
	for i, v := range a.args[2:] {
		r[i] = asub(v, map[string]val{"iter:#" + a.s: x})
	}
	return r
}

// firstElem finds an element access at the variable (plus or minus a constant).
func firstElem(v *atom, vs ...val) (sign int64, off *num, ok bool) {
	best := ""
	var visit func(x val)
	visit = func(x val) {
		eachAtom(x, func(a *atom) {
			if a.op == "elem" && len(a.args) == 2 {
				i := a.args[1].(*num)
				m := i.m[v.key()]
				if m == nil || !m.c.IsInt64() || m.c.Int64() != 1 && m.c.Int64() != -1 {
					return
				}
				rest := subN(i, scaleN(numA(v), m.c))
				if amentions(rest, v) || amentions(a.args[0], v) {
					return
				}
				if k := a.args[0].key(); best == "" || k < best {
					best, sign, off, ok = k, m.c.Int64(), rest, true
				}
			}
		})
	}
	for _, x := range vs {
		visit(x)
	}
	return
}

// mkRange makes a sum or product over [lo, hi) with the free variable v.
func mkRange(op string, v *atom, lo, hi *num, vs ...val) *atom {
	if s, off, ok := firstElem(v, vs...); ok && (s != 1 || !off.isInt(0)) {
		// element s*v+off becomes element w: v = s*(w-off)
		w := freshIter(nil)
		nv := scaleN(subN(numA(w), off), big.NewInt(s))
		for i := range vs {
			vs[i] = asub(vs[i], map[string]val{v.key(): nv})
		}
		if s == 1 {
			lo, hi = addN(lo, off), addN(hi, off)
		} else {
			lo, hi = addN(subN(off, hi), numI(1)), addN(subN(off, lo), numI(1))
		}
		v = w
	}
	h := strconv.Itoa(height(vs...) + 1)
	args := append([]val{lo, hi}, bind(v, vs...)...)
	return &atom{op: op, s: h, args: args}
}

// peel extends sums by terms just outside of their range.
func (n *num) peel() *num {
	for _, m := range n.m {
		if len(m.f) != 1 || m.f[0].a.op != "sum" || !m.f[0].e.isInt(1) {
			continue
		}
		a := m.f[0].a
		lo, hi := a.args[0].(*num), a.args[1].(*num)
		for side, at := range []*num{hi, subN(lo, numI(1))} {
			b := scaleN(openBinder(a, at)[0].(*num), m.c)
			if len(b.m) == 0 {
				continue
			}
			all := true
			for k, x := range b.m {
				if y := n.m[k]; y == nil || y.c.Cmp(x.c) != 0 {
					all = false
				}
			}
			if !all {
				continue
			}
			args := append([]val{}, a.args...)
			if side == 0 {
				args[1] = addN(hi, numI(1))
			} else {
				args[0] = at
			}
			r := newNum()
			r.modq = n.modq
			for k, x := range n.m {
				if b.m[k] == nil && x != m {
					r.add1(x)
				}
			}
			r.add1(&mono{m.c, []factor{{&atom{op: "sum", s: a.s, args: args}, numI(1)}}})
			return r.peel()
		}
	}
	return n
}

// sumN is the sum of body over [lo, hi).
func sumN(v *atom, lo, hi, body *num) *num {
	if len(body.m) == 0 {
		return body
	}
	if !amentions(body, v) {
		return mulN(subN(hi, lo), body)
	}
	r := numA(mkRange("sum", v, lo, hi, body))
	r.modq = body.modq
	return r
}

// prodN is the product of body over the elements of [lo, hi) that fulfil the condition.
func prodN(v *atom, lo, hi, body *num, cond val) *num {
	if !amentions(body, v) && cond.key() == "true" {
		return powN(body, subN(hi, lo))
	}
	r := numA(mkRange("prod", v, lo, hi, body, cond))
	r.modq = body.modq
	return r
}

// allB: the condition holds for all v of [lo, hi).
func allB(v *atom, lo, hi *num, b *boolv) *boolv {
	if b.c != nil && *b.c || lo.key() == hi.key() {
		return constBool(true)
	}
	if !amentions(b, v) {
		return b
	}
	return &boolv{a: mkRange("all", v, lo, hi, b)}
}

// invProd: the inverse of a product is the product of the inverses.
func invProd(f factor) *factor {
	if !f.e.isInt(1) {
		return nil
	}
	v := freshIter(nil)
	b := openBinder(f.a, numA(v))
	x := mkRange("prod", v, f.a.args[0].(*num), f.a.args[1].(*num), invN(b[0].(*num)), b[1])
	return &factor{x, numI(1)}
}

// mergeProducts: products over the same elements are one product.
func mergeProducts(m *mono) []*mono {
	for i, f := range m.f {
		if f.a.op != "prod" || !f.e.isInt(1) {
			continue
		}
		for j := i + 1; j < len(m.f); j++ {
			g := m.f[j]
			if g.a.op != "prod" || !g.e.isInt(1) || g.a.args[0].key() != f.a.args[0].key() || g.a.args[1].key() != f.a.args[1].key() {
				continue
			}
			v := freshIter(nil)
			b, d := openBinder(f.a, numA(v)), openBinder(g.a, numA(v))
			if b[1].key() != d[1].key() {
				continue
			}
			x := prodN(v, f.a.args[0].(*num), f.a.args[1].(*num), mulN(b[0].(*num), d[0].(*num)), b[1])
			rest := &mono{c: m.c}
			for k, h := range m.f {
				if k != i && k != j {
					rest.f = append(rest.f, h)
				}
			}
			var r []*mono
			for _, y := range x.m {
				r = append(r, mergeProducts(mulMono(rest, y))...)
			}
			return r
		}
	}
	return []*mono{m}
}

// ---- group elements, written additively

type gterm struct {
	a *atom
	c *num
}
type grp struct {
	kind string // G1, G2, GT
	m    map[string]*gterm
	k    string
}

func (g *grp) key() string {
	if g.k == "" {
		var ks []string
		for k := range g.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []string
		for _, k := range ks {
			if c := g.m[k].c.key(); c == "1" {
				r = append(r, k)
			} else {
				r = append(r, "("+c+")."+k)
			}
		}
		g.k = g.kind + "<" + strings.Join(r, " + ") + ">"
	}
	return g.k
}
func newGrp(kind string) *grp { return &grp{kind: kind, m: map[string]*gterm{}} }
func grpA(kind string, a *atom) *grp {
	g := newGrp(kind)
	g.m[a.key()] = &gterm{a, numI(1)}
	return g
}
func (g *grp) add1(a *atom, c *num) {
	if a.op == "gsum" && !c.isInt(1) {
		// push the coefficient into the sum
		v := freshIter(nil)
		b := openBinder(a, numA(v))[0].(*grp)
		g.addSum(v, a.args[0].(*num), a.args[1].(*num), scaleG(b, c))
		return
	}
	// a sum in the coefficient becomes a sum of points
	plain := newNum()
	for _, m := range c.m {
		split := false
		for i, f := range m.f {
			if f.a.op == "sum" && f.e.isInt(1) {
				v := freshIter(nil)
				rest := newNum()
				rest.add1(&mono{m.c, append(append([]factor{}, m.f[:i]...), m.f[i+1:]...)})
				b := mulN(openBinder(f.a, numA(v))[0].(*num), rest)
				gb := newGrp(g.kind)
				gb.add1(a, b)
				g.addSum(v, f.a.args[0].(*num), f.a.args[1].(*num), gb)
				split = true
				break
			}
		}
		if !split {
			plain.add1(m)
		}
	}
	if len(plain.m) == 0 {
		return
	}
	k := a.key()
	if o := g.m[k]; o != nil {
		if a.op == "gsum" {
			n := addN(o.c, plain)
			delete(g.m, k)
			g.add1(a, n)
			return
		}
		n := addN(o.c, plain)
		if len(n.m) == 0 {
			delete(g.m, k)
		} else {
			g.m[k] = &gterm{a, n}
		}
		return
	}
	g.m[k] = &gterm{a, plain}
}

// addSum adds a sum of points over [lo, hi).
func (g *grp) addSum(v *atom, lo, hi *num, body *grp) {
	if len(body.m) == 0 {
		return
	}
	if !amentions(body, v) {
		for _, t := range scaleG(body, subN(hi, lo)).m {
			g.add1(t.a, t.c)
		}
		return
	}
	// powers of zero: only the first one counts
	for _, t := range body.m {
		for _, m := range t.c.m {
			for _, f := range m.f {
				if f.a.op == "poly" && f.a.args[0].key() == "0" && f.e.key() == v.key() && lo.isInt(0) {
					rest := newGrp(g.kind)
					n := newNum()
					n.add1(m)
					rest.add1(t.a, n)
					one := asub(asub(rest, map[string]val{f.a.key(): numI(1)}), map[string]val{v.key(): numI(0)}).(*grp)
					other := addG(body, scaleG(rest, numI(-1)))
					for _, u := range one.m {
						g.add1(u.a, u.c)
					}
					g.addSum(v, lo, hi, other)
					return
				}
			}
		}
	}
	a := mkRange("gsum", v, lo, hi, body)
	// sums over the same range are one sum
	for k, t := range g.m {
		if t.a.op == "gsum" && t.a.args[0].key() == a.args[0].key() && t.a.args[1].key() == a.args[1].key() {
			w := freshIter(nil)
			x, y := openBinder(t.a, numA(w))[0].(*grp), openBinder(a, numA(w))[0].(*grp)
			delete(g.m, k)
			g.addSum(w, a.args[0].(*num), a.args[1].(*num), addG(x, y))
			return
		}
	}
	g.m[a.key()] = &gterm{a, numI(1)}
	// neighbours of the range
	for _, t := range g.m {
		if t.a.op != "gsum" {
			continue
		}
		lo, hi := t.a.args[0].(*num), t.a.args[1].(*num)
		for side, at := range []*num{hi, subN(lo, numI(1))} {
			b := openBinder(t.a, at)[0].(*grp)
			all := len(b.m) > 0
			for k, x := range b.m {
				if y := g.m[k]; y == nil || y.c.key() != x.c.key() {
					all = false
				}
			}
			if !all {
				continue
			}
			delete(g.m, t.a.key())
			for k := range b.m {
				delete(g.m, k)
			}
			w := freshIter(nil)
			body := openBinder(t.a, numA(w))[0].(*grp)
			if side == 0 {
				hi = addN(hi, numI(1))
			} else {
				lo = at
			}
			g.addSum(w, lo, hi, body)
			return
		}
	}
}
func addG(a, b *grp) *grp {
	r := newGrp(a.kind)
	for _, x := range []*grp{a, b} {
		for _, t := range x.m {
			r.add1(t.a, t.c)
		}
	}
	return r
}
func scaleG(a *grp, c *num) *grp {
	r := newGrp(a.kind)
	if len(c.m) == 0 {
		return r
	}
	for _, t := range a.m {
		r.add1(t.a, mulN(t.c, c))
	}
	return r
}

// pairing is bilinear.
func pairing(p1, p2 *grp) *grp {
	r := newGrp("GT")
	for _, x := range p1.m {
		for _, y := range p2.m {
			pairTerm(r, x.a, y.a, mulN(x.c, y.c))
		}
	}
	return r
}
func pairTerm(r *grp, x, y *atom, c *num) {
	for i, a := range []*atom{x, y} {
		if a.op == "gsum" {
			v := freshIter(nil)
			b := openBinder(a, numA(v))[0].(*grp)
			in := newGrp("GT")
			for _, t := range b.m {
				if i == 0 {
					pairTerm(in, t.a, y, mulN(t.c, c))
				} else {
					pairTerm(in, x, t.a, mulN(t.c, c))
				}
			}
			r.addSum(v, a.args[0].(*num), a.args[1].(*num), in)
			return
		}
	}
	r.add1(&atom{op: "pair", args: []val{x, y}}, c)
}

// finalExp maps products of Miller loops to products of pairings.
func finalExp(g *grp) (*grp, bool) {
	r := newGrp("GT")
	for _, t := range g.m {
		if t.a.op != "miller" {
			return nil, false
		}
		for _, u := range scaleG(pairing(t.a.args[0].(*grp), t.a.args[1].(*grp)), t.c).m {
			r.add1(u.a, u.c)
		}
	}
	return r, true
}

// ---- sequences

// seg is a part of a sequence: literal elements, a part of an atom or of another sequence, a repeated element, or
// the concatenation of what the body is for every k of [0, n).
type seg struct {
	lit    []val
	base   val // atom or seq
	lo, hi *num
	rep    val
	n      *num
	body   *seq
	h      string // height of the variable in the body
	bytes  bool
}
type seq struct {
	segs []*seg
	k    string
}

func (s *seg) key() string {
	switch {
	case s.base != nil:
		return s.base.key() + "[" + s.lo.key() + ":" + s.hi.key() + "]"
	case s.rep != nil:
		return "rep(" + s.rep.key() + ", " + s.n.key() + ")"
	case s.body != nil:
		return "all(" + s.h + "<" + s.n.key() + ": " + s.body.key() + ")"
	}
	var r []string
	for _, x := range s.lit {
		r = append(r, x.key())
	}
	return "[" + strings.Join(r, ", ") + "]"
}
func (s *seg) length() *num {
	switch {
	case s.base != nil:
		return subN(s.hi, s.lo)
	case s.rep != nil:
		return s.n
	case s.body != nil:
		v := freshIter(nil)
		l := mkLen(asub(s.body, map[string]val{"iter:#" + s.h: numA(v)}))
		if !amentions(l, v) {
			return mulN(l, s.n)
		}
		return sumN(v, numI(0), s.n, l)
	}
	return numI(int64(len(s.lit)))
}
func (s *seq) key() string {
	if s.k == "" {
		var r []string
		for _, x := range s.segs {
			r = append(r, x.key())
		}
		s.k = "‹" + strings.Join(r, " ") + "›"
	}
	return s.k
}
func litSeq(vs ...val) *seq {
	if len(vs) == 0 {
		return &seq{}
	}
	return &seq{segs: []*seg{{lit: vs}}}
}

// whole is the sequence of all elements of an atom.
func whole(a *atom, l *num) *seq {
	return (&seq{}).plus(&seg{base: a, lo: numI(0), hi: l})
}
func atomLen(a *atom) *num {
	switch a.op {
	case "keccak", "xor", "block":
		return numI(32)
	case "be":
		if n, err := strconv.Atoi(a.s); err == nil {
			return numI(int64(n))
		}
	case "compress":
		if g, ok := a.args[0].(*grp); ok && g.kind == "G1" {
			return numI(48)
		}
		return numI(96)
	case "gtbytes":
		return numI(576)
	case "in", "phi":
		if len(a.args) > 0 {
			return a.args[0].(*num)
		}
	}
	return numA(&atom{op: "len", args: []val{a}})
}

// plus appends a segment in normal form.
func (s *seq) plus(x *seg) *seq {
	if x.length().isInt(0) {
		return s
	}
	if x.rep != nil {
		if c, ok := x.n.isConst(); ok && c.IsInt64() && c.Int64() > 0 && c.Int64() <= 4 {
			var l []val
			for i := int64(0); i < c.Int64(); i++ {
				l = append(l, x.rep)
			}
			x = &seg{lit: l}
		}
	}
	if x.body != nil && x.n.isInt(1) {
		r := s
		for _, y := range asub(x.body, map[string]val{"iter:#" + x.h: numI(0)}).(*seq).segs {
			r = r.plus(y)
		}
		return r
	}
	if b, ok := x.base.(*seq); ok {
		if r, ok := trySlice(b, x.lo, x.hi); ok {
			q := s
			for _, y := range r.segs {
				q = q.plus(y)
			}
			return q
		}
	}
	r := &seq{segs: append([]*seg{}, s.segs...)}
	if len(r.segs) > 0 {
		l := r.segs[len(r.segs)-1]
		switch {
		case l.lit != nil && x.lit != nil:
			r.segs[len(r.segs)-1] = &seg{lit: append(append([]val{}, l.lit...), x.lit...)}
			return r
		case l.base != nil && x.base != nil && l.base.key() == x.base.key() && l.hi.key() == x.lo.key():
			r.segs = r.segs[:len(r.segs)-1]
			return r.plus(&seg{base: l.base, lo: l.lo, hi: x.hi})
		case l.rep != nil && x.rep != nil && l.rep.key() == x.rep.key():
			r.segs[len(r.segs)-1] = &seg{rep: l.rep, n: addN(l.n, x.n)}
			return r
		case l.body != nil:
			// the next element after the end
			if nx := asub(l.body, map[string]val{"iter:#" + l.h: l.n}).(*seq); nx.key() == (&seq{segs: []*seg{x}}).key() {
				r.segs = r.segs[:len(r.segs)-1]
				return r.plus(allSeg(l.h, addN(l.n, numI(1)), l.body))
			}
		}
	}
	r.segs = append(r.segs, x)
	return r
}
func allSeg(h string, n *num, body *seq) *seg { return &seg{h: h, n: n, body: body} }

// comp is the concatenation of body for all v of [0, n).
func comp(v *atom, n *num, body *seq) *seq {
	if c, ok := n.isConst(); ok && c.Sign() >= 0 && c.Cmp(big.NewInt(4)) <= 0 && amentions(body, v) {
		r := &seq{}
		for i := int64(0); i < c.Int64(); i++ {
			r = cat(r, asub(body, map[string]val{v.key(): numI(i)}).(*seq))
		}
		return r
	}
	// neighbouring parts of one base are one part
	if len(body.segs) == 1 && body.segs[0].base != nil && !amentions(body.segs[0].base, v) {
		x := body.segs[0]
		next := asub(x.lo, map[string]val{v.key(): addN(numA(v), numI(1))})
		if next.key() == x.hi.key() {
			first := asub(x.lo, map[string]val{v.key(): numI(0)}).(*num)
			end := asub(x.lo, map[string]val{v.key(): n}).(*num)
			return (&seq{}).plus(&seg{base: x.base, lo: first, hi: end})
		}
	}
	if len(body.segs) == 1 && len(body.segs[0].lit) == 1 {
		if !amentions(body, v) {
			return (&seq{}).plus(&seg{rep: body.segs[0].lit[0], n: n})
		}
		// all elements of a sequence in order
		e := body.segs[0].lit[0]
		var ea *atom
		switch x := e.(type) {
		case *num:
			ea = x.theAtom()
		case *atom:
			ea = x
		}
		if ea != nil && ea.op == "elem" && ea.s == "byte" && len(ea.args) == 2 && !amentions(ea.args[0], v) {
			i := ea.args[1].(*num)
			if off := subN(i, numA(v)); !amentions(off, v) {
				return (&seq{}).plus(&seg{base: ea.args[0], lo: off, hi: addN(off, n)})
			}
		}
		if ea != nil && ea.op == "xorb" {
			var parts []val
			ok := true
			for _, x := range ea.args {
				n1, _ := x.(*num)
				p := comp(v, n, litSeq(x))
				if n1 == nil || len(p.segs) != 1 || p.segs[0].base == nil && p.segs[0].rep == nil {
					ok = false
					break
				}
				parts = append(parts, p)
			}
			if ok {
				return xorSeq(n, parts)
			}
		}
	}
	vs := bind(v, body)
	h := strconv.Itoa(height(body) + 1)
	return (&seq{}).plus(allSeg(h, n, vs[0].(*seq)))
}

// xorSeq is the xor of sequences of the same length.
func xorSeq(n *num, parts []val) *seq {
	count := map[string]val{}
	var add func(v val)
	add = func(v val) {
		s := v.(*seq)
		if len(s.segs) == 1 && s.segs[0].base != nil {
			if a, ok := s.segs[0].base.(*atom); ok && a.op == "xors" && s.segs[0].lo.isInt(0) && s.segs[0].hi.key() == n.key() {
				for _, p := range a.args[1:] {
					add(p)
				}
				return
			}
		}
		if len(s.segs) == 1 && s.segs[0].rep != nil && s.segs[0].rep.key() == "0" {
			return
		}
		if k := s.key(); count[k] != nil {
			delete(count, k)
		} else {
			count[k] = s
		}
	}
	for _, p := range parts {
		add(p)
	}
	var ks []string
	for k := range count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return (&seq{}).plus(&seg{rep: numI(0), n: n})
	}
	if len(ks) == 1 {
		return count[ks[0]].(*seq)
	}
	a := &atom{op: "xors", args: []val{n}}
	for _, k := range ks {
		a.args = append(a.args, count[k])
	}
	return &seq{segs: []*seg{{base: a, lo: numI(0), hi: n}}}
}

func cat(a, b *seq) *seq {
	r := a
	for _, x := range b.segs {
		r = r.plus(x)
	}
	return r
}

// trySlice cuts a sequence at two positions if they can be located.
func trySlice(s *seq, lo, hi *num) (*seq, bool) {
	if lo.key() == hi.key() {
		return &seq{}, true
	}
	if lo.isInt(0) && mkLen(s).key() == hi.key() {
		return s, true
	}
	r := &seq{}
	pos := numI(0)
	on := false
	for _, x := range s.segs {
		l := x.length()
		end := addN(pos, l)
		from, to := numI(0), l
		if !on {
			switch {
			case ge0(subN(lo, end)):
				pos = end
				continue
			case ge0(subN(lo, pos)):
				// it starts in this segment
				if !(ge0(subN(end, lo)) || ge0(subN(end, hi))) {
					if !ge0(subN(subN(end, lo), numI(0))) {
						return nil, false
					}
				}
				from = subN(lo, pos)
				on = true
			default:
				return nil, false
			}
		}
		last := false
		if hi.key() == end.key() || ge0(subN(end, hi)) {
			to = subN(hi, pos)
			last = true
		} else if !ge0(subN(hi, end)) {
			return nil, false
		}
		p, ok := x.part(from, to)
		if !ok {
			return nil, false
		}
		r = cat(r, p)
		if last {
			return r, true
		}
		pos = end
	}
	return nil, false
}

// part is a part of a segment.
func (x *seg) part(from, to *num) (*seq, bool) {
	if from.isInt(0) && to.key() == x.length().key() {
		return (&seq{}).plus(x), true
	}
	switch {
	case x.base != nil:
		return (&seq{}).plus(&seg{base: x.base, lo: addN(x.lo, from), hi: addN(x.lo, to)}), true
	case x.rep != nil:
		return (&seq{}).plus(&seg{rep: x.rep, n: subN(to, from)}), true
	case x.lit != nil:
		a, ok1 := from.isConst()
		b, ok2 := to.isConst()
		if !ok1 || !ok2 || b.Int64() < a.Int64() || b.Int64() > int64(len(x.lit)) {
			return nil, false
		}
		if a.Int64() == b.Int64() {
			return &seq{}, true
		}
		return (&seq{}).plus(&seg{lit: x.lit[a.Int64():b.Int64()]}), true
	case x.body != nil:
		v := freshIter(subN(x.n, numI(1)))
		b := asub(x.body, map[string]val{"iter:#" + x.h: numA(v)}).(*seq)
		l := mkLen(b)
		c, ok := l.isConst()
		if !ok || c.Sign() <= 0 {
			return nil, false
		}
		k1, k2 := mkDiv(from, c), mkDiv(to, c)
		r1, r2 := subN(from, scaleN(k1, c)), subN(to, scaleN(k2, c))
		r := &seq{}
		at := func(k *num) *seq { return asub(x.body, map[string]val{"iter:#" + x.h: k}).(*seq) }
		if !r1.isInt(0) {
			if k1.key() == k2.key() {
				return trySlice(at(k1), r1, r2)
			}
			p, ok := trySlice(at(k1), r1, l)
			if !ok {
				return nil, false
			}
			r = cat(r, p)
			k1 = addN(k1, numI(1))
		}
		if k1.key() != k2.key() {
			w := freshIter(subN(subN(k2, k1), numI(1)))
			r = cat(r, comp(w, subN(k2, k1), at(addN(k1, numA(w)))))
		}
		if !r2.isInt(0) {
			p, ok := trySlice(at(k2), numI(0), r2)
			if !ok {
				return nil, false
			}
			r = cat(r, p)
		}
		return r, true
	}
	return nil, false
}

// slice cuts a sequence; what cannot be located stays a part of the whole.
func slice(s *seq, lo, hi *num) *seq {
	if r, ok := trySlice(s, lo, hi); ok {
		return r
	}
	if len(s.segs) == 1 && s.segs[0].base != nil {
		x := s.segs[0]
		return (&seq{}).plus(&seg{base: x.base, lo: addN(x.lo, lo), hi: addN(x.lo, hi)})
	}
	return &seq{segs: []*seg{{base: s, lo: lo, hi: hi}}}
}

// splice replaces [lo, hi).
func splice(s *seq, lo, hi *num, data *seq) *seq {
	return cat(cat(slice(s, numI(0), lo), data), slice(s, hi, mkLen(s)))
}

// at is an element of a sequence.
func at(s *seq, i *num, isByte bool) val {
	if r, ok := trySlice(s, i, addN(i, numI(1))); ok && len(r.segs) == 1 {
		x := r.segs[0]
		switch {
		case len(x.lit) == 1:
			return x.lit[0]
		case x.rep != nil:
			return x.rep
		case x.base != nil:
			return aelemOf(x.base, x.lo, isByte)
		}
	}
	if len(s.segs) == 1 && s.segs[0].base != nil {
		return aelemOf(s.segs[0].base, addN(s.segs[0].lo, i), isByte)
	}
	return aelemOf(s, i, isByte)
}
func aelemOf(base val, i *num, isByte bool) val {
	if s, ok := base.(*seq); ok {
		if _, ok := trySlice(s, i, addN(i, numI(1))); ok {
			return at(s, i, isByte)
		}
	}
	a := &atom{op: "elem", args: []val{base, i}}
	if isByte {
		a.s = "byte"
		return numA(a)
	}
	return a
}

// ---- traversal

func eachAtom(v val, f func(*atom)) {
	switch x := v.(type) {
	case *atom:
		f(x)
		for _, a := range x.args {
			eachAtom(a, f)
		}
	case *num:
		for _, m := range x.m {
			for _, y := range m.f {
				eachAtom(y.a, f)
				eachAtom(y.e, f)
			}
		}
	case *grp:
		for _, t := range x.m {
			eachAtom(t.a, f)
			eachAtom(t.c, f)
		}
	case *seq:
		for _, s := range x.segs {
			for _, l := range s.lit {
				eachAtom(l, f)
			}
			for _, y := range []*num{s.lo, s.hi, s.n} {
				if y != nil {
					eachAtom(y, f)
				}
			}
			if s.base != nil {
				eachAtom(s.base, f)
			}
			if s.rep != nil {
				eachAtom(s.rep, f)
			}
			if s.body != nil {
				eachAtom(s.body, f)
			}
		}
	case *cerr:
		eachAtom(x.b, f)
	case *box:
		eachAtom(x.v, f)
	case *boolv:
		if x.a != nil {
			eachAtom(x.a, f)
		}
	case *strct:
		for _, n := range x.names {
			eachAtom(x.f[n], f)
		}
	case *sref:
		eachAtom(x.lo, f)
		eachAtom(x.hi, f)
	case *ptr:
		if x.idx != nil {
			eachAtom(x.idx, f)
		}
		if x.nilIf != nil {
			eachAtom(x.nilIf, f)
		}
	case *tuplev:
		for _, y := range x.vs {
			eachAtom(y, f)
		}
	}
}

type tuplev struct{ vs []val }

func (t *tuplev) key() string {
	var r []string
	for _, x := range t.vs {
		r = append(r, x.key())
	}
	return "<" + strings.Join(r, ", ") + ">"
}

func amentions(v val, a *atom) bool {
	r := false
	k := a.key()
	if !strings.Contains(v.key(), k) {
		return false
	}
	eachAtom(v, func(x *atom) {
		if x == a || x.key() == k {
			r = true
		}
	})
	return r
}

// subst replaces atoms by values and normalises again.
func asub(v val, m map[string]val) val {
	hit := false
	k := v.key()
	for a := range m {
		if strings.Contains(k, a) {
			hit = true
			break
		}
	}
	if !hit {
		return v
	}
	switch x := v.(type) {
	case *atom:
		return substAtom(x, m)
	case *num:
		r := newNum()
		for _, y := range x.m {
			t := constNum(y.c)
			for _, f := range y.f {
				e := asub(f.e, m).(*num)
				var b *num
				switch z := unbox(substAtom(f.a, m)).(type) {
				case *num:
					b = z
				case *atom:
					b = numA(z)
				default:
					b = numA(&atom{op: "bad", s: z.key()})
				}
				if e.isInt(-1) && f.a.op == "poly" {
					t = mulN(t, invN(b))
				} else {
					t = mulN(t, powN(b, e))
				}
			}
			r = addN(r, t)
		}
		r.modq = r.modq || x.modq
		r.red = x.red
		if a := x.theAtom(); a != nil {
			if z, ok := unbox(substAtom(a, m)).(*num); ok && z.red {
				r.red = true
			}
		}
		return r
	case *grp:
		r := newGrp(x.kind)
		for _, t := range x.m {
			c := asub(t.c, m).(*num)
			switch b := unbox(substAtom(t.a, m)).(type) {
			case *atom:
				r.add1(b, c)
			case *grp:
				for _, u := range b.m {
					r.add1(u.a, mulN(u.c, c))
				}
			}
		}
		return r
	case *seq:
		r := &seq{}
		for _, s := range x.segs {
			switch {
			case s.lit != nil:
				var l []val
				for _, y := range s.lit {
					l = append(l, asub(y, m))
				}
				r = r.plus(&seg{lit: l})
			case s.base != nil:
				lo, hi := asub(s.lo, m).(*num), asub(s.hi, m).(*num)
				switch b := asub(s.base, m).(type) {
				case *seq:
					r = cat(r, slice(b, lo, hi))
				default:
					r = r.plus(&seg{base: b, lo: lo, hi: hi})
				}
			case s.rep != nil:
				r = r.plus(&seg{rep: asub(s.rep, m), n: asub(s.n, m).(*num)})
			default:
				n := asub(s.n, m).(*num)
				w := freshIter(subN(n, numI(1)))
				b := asub(asub(s.body, map[string]val{"iter:#" + s.h: numA(w)}), m)
				r = cat(r, comp(w, n, b.(*seq)))
			}
		}
		return r
	case *cerr:
		b := asub(x.b, m).(*boolv)
		if b.c != nil && !*b.c {
			return nilv{}
		}
		return &cerr{b}
	case *box:
		return &box{asub(x.v, m)}
	case *boolv:
		if x.a == nil {
			return x
		}
		b := rebuildBool(x.a, m)
		if x.neg {
			return b.not()
		}
		return b
	case *strct:
		r := &strct{names: x.names, f: map[string]val{}}
		for _, n := range x.names {
			r.f[n] = asub(x.f[n], m)
		}
		return r
	case *sref:
		return &sref{x.obj, asub(x.lo, m).(*num), asub(x.hi, m).(*num), x.full}
	case *ptr:
		if x.idx != nil || x.nilIf != nil {
			r := *x
			if x.idx != nil {
				r.idx = asub(x.idx, m).(*num)
			}
			if x.nilIf != nil {
				r.nilIf = asub(x.nilIf, m).(*boolv)
			}
			return &r
		}
	case *tuplev:
		r := &tuplev{}
		for _, y := range x.vs {
			r.vs = append(r.vs, asub(y, m))
		}
		return r
	}
	return v
}

// wholeOf: the sequence is all of an atom.
func wholeOf(v val) *atom {
	s, ok := v.(*seq)
	if !ok || len(s.segs) != 1 || s.segs[0].base == nil || !s.segs[0].lo.isInt(0) {
		return nil
	}
	a, ok := s.segs[0].base.(*atom)
	if !ok || s.segs[0].hi.key() != atomLen(a).key() {
		return nil
	}
	return a
}

// unbox: a list of pointers to numbers is a list of numbers.
func unbox(v val) val {
	if b, ok := v.(*box); ok {
		return b.v
	}
	return v
}

// renorm normalises again, with what is known now.
func renorm(v val) val { return asub(v, map[string]val{"": nilv{}}) }

func substAtom(a *atom, m map[string]val) val {
	if r := m[a.key()]; r != nil {
		return r
	}
	if len(a.args) == 0 {
		return a
	}
	switch a.op {
	case "sum", "prod", "gsum", "all":
		lo, hi := asub(a.args[0], m).(*num), asub(a.args[1], m).(*num)
		var top *num
		if lo.isInt(0) {
			top = subN(hi, numI(1))
		}
		v := freshIter(top)
		b := openBinder(a, numA(v))
		for i := range b {
			b[i] = asub(b[i], m)
		}
		switch a.op {
		case "sum":
			return sumN(v, lo, hi, b[0].(*num))
		case "prod":
			return prodN(v, lo, hi, b[0].(*num), b[1])
		case "all":
			return allB(v, lo, hi, b[0].(*boolv))
		}
		g := newGrp(b[0].(*grp).kind)
		g.addSum(v, lo, hi, b[0].(*grp))
		return g
	}
	args := make([]val, len(a.args))
	for i, x := range a.args {
		args[i] = asub(x, m)
	}
	return mkAtom(a.op, a.s, args)
}

// mkAtom makes an atom or simplifies.
func mkAtom(op, s string, args []val) val {
	switch op {
	case "and":
		r := constBool(true)
		for _, a := range args {
			b, ok := a.(*boolv)
			if !ok {
				return &atom{op: op, s: s, args: args}
			}
			r = andB(r, b)
		}
		if r.a == nil || r.neg {
			return r
		}
		return r.a
	case "ind":
		if b, ok := args[0].(*boolv); ok {
			return unbox(indN(b, ""))
		}
	case "len":
		return mkLen(args[0])
	case "div":
		c, _ := new(big.Int).SetString(s, 10)
		return mkDiv(args[0].(*num), c)
	case "byte":
		return mkByte(args[0].(*num))
	case "poly":
		return args[0]
	case "elem":
		if b, ok := args[0].(*seq); ok {
			return at(b, args[1].(*num), s == "byte")
		}
		r := aelemOf(args[0], args[1].(*num), s == "byte")
		if n, ok := r.(*num); ok {
			if a := n.theAtom(); a != nil {
				return a
			}
		}
		return r
	case "xorb":
		return xorByte(args)
	case "xors":
		return xorSeq(args[0].(*num), args[1:])
	case "unhex":
		if h := wholeOf(args[0]); h != nil && h.op == "hex" {
			return h.args[0]
		}
	case "nothex":
		if h := wholeOf(args[0]); h != nil && h.op == "hex" {
			return constBool(false)
		}
	case "badpoint":
		if h := wholeOf(args[0]); h != nil && h.op == "compress" && h.args[0].(*grp).kind == s {
			return constBool(false)
		}
	case "point":
		if h := wholeOf(args[0]); h != nil && h.op == "compress" && h.args[0].(*grp).kind == s {
			return h.args[0]
		}
	case "pair":
		x, ok1 := args[0].(*grp)
		y, ok2 := args[1].(*grp)
		toG := func(v val, kind string) *grp {
			if a, ok := v.(*atom); ok {
				return grpA(kind, a)
			}
			return nil
		}
		if ok1 || ok2 {
			if !ok1 {
				x = toG(args[0], "G1")
			}
			if !ok2 {
				y = toG(args[1], "G2")
			}
			return pairing(x, y)
		}
	case "eq", "le", "lt":
		b := mkCmp(op, args)
		if b.c != nil || b.neg || b.a.op != op {
			return b
		}
		return b.a
	}
	return &atom{op: op, s: s, args: args}
}

func xorByte(args []val) val {
	count := map[string]val{}
	var add func(v val)
	add = func(v val) {
		n, ok := v.(*num)
		if ok {
			if a := n.theAtom(); a != nil && a.op == "xorb" {
				for _, x := range a.args {
					add(x)
				}
				return
			}
			if n.isInt(0) {
				return
			}
		}
		if count[v.key()] != nil {
			delete(count, v.key())
		} else {
			count[v.key()] = v
		}
	}
	for _, a := range args {
		add(a)
	}
	var ks []string
	for k := range count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return numI(0)
	}
	if len(ks) == 1 {
		return count[ks[0]]
	}
	a := &atom{op: "xorb"}
	for _, k := range ks {
		a.args = append(a.args, count[k])
	}
	return a
}

func mkByte(x *num) val {
	if ge0(x) && ge0(subN(numI(255), x)) {
		return x
	}
	return &atom{op: "byte", args: []val{x}}
}

// leadNeg: the first term that is not constant has a negative coefficient.
func leadNeg(d *num) bool {
	var first *mono
	fk := ""
	for _, m := range d.m {
		if k := m.fkey(); len(m.f) > 0 && (first == nil || k < fk) {
			first, fk = m, k
		}
	}
	return first != nil && first.c.Sign() < 0
}

func rebuildBool(a *atom, m map[string]val) *boolv {
	switch r := substAtom(a, m).(type) {
	case *boolv:
		return r
	case *atom:
		return &boolv{a: r}
	}
	return &boolv{a: a}
}

// mkCmp makes a comparison: eq(x, y) for any values, le(x): x <= 0 for numbers.
func mkCmp(op string, args []val) *boolv {
	switch op {
	case "eq":
		x, y := args[0], args[1]
		if x.key() == y.key() {
			return constBool(true)
		}
		if a, ok := x.(*num); ok {
			if b, ok := y.(*num); ok {
				d := subN(a, b)
				if c, ok := d.isConst(); ok && !d.modq {
					return constBool(c.Sign() == 0)
				}
				if !d.modq && (ge0(subN(d, numI(1))) || ge0(subN(negN(d), numI(1)))) {
					return constBool(false)
				}
				// canonical sign
				if k := negN(d); k.key() < d.key() {
					d = k
				}
				return &boolv{a: &atom{op: "eq", args: []val{d, numI(0)}}}
			}
		}
		if y.key() < x.key() {
			x, y = y, x
		}
		return &boolv{a: &atom{op: "eq", args: []val{x, y}}}
	case "le":
		d := args[0].(*num)
		if ge0(negN(d)) {
			return constBool(true)
		}
		if ge0(subN(d, numI(1))) {
			return constBool(false)
		}
		// canonical sign: d <= 0 is the negation of 1-d <= 0
		if k := subN(numI(1), d); leadNeg(d) {
			return (&boolv{a: &atom{op: "le", args: []val{k}}}).not()
		}
		return &boolv{a: &atom{op: "le", args: []val{d}}}
	}
	panic(fmt.Sprint("mkCmp ", op))
}
