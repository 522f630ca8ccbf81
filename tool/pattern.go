package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M matches expressions.
type M func(*Expr) bool

func Any(*Expr) bool { return true }

func Is(x *Expr) M { k := x.Key(); return func(e *Expr) bool { return e != nil && e.Key() == k } }

// Fld matches base.name; typ is the package-qualified owner ("" = any).
func Fld(base M, name string) M {
	return func(e *Expr) bool { return e != nil && e.Op == "field" && e.S == name && base(e.Args[0]) }
}

// TF matches any field typ.name.
func TF(typ, name string) M { return func(e *Expr) bool { return isField(e, typ, name) } }

func Idx(c, i M) M {
	return func(e *Expr) bool {
		if e == nil || e.Op != "index" {
			return false
		}
		if c(e.Args[0]) && i(e.Args[1]) {
			return true
		}
		// an element of a part of the list is an element of the list, at an unknown position
		return e.Args[0].Op == "slice" && c(unsliced(e.Args[0])) && i(&Expr{Op: "opaque", S: "position"})
	}
}

func Len(c M) M {
	return func(e *Expr) bool { e = strip(e); return e != nil && e.Op == "len" && c(e.Args[0]) }
}

func Has(m, k M) M {
	return func(e *Expr) bool { return e != nil && e.Op == "has" && m(e.Args[0]) && k(e.Args[1]) }
}

func K(s string) M {
	return func(e *Expr) bool { e = strip(e); return e != nil && e.Op == "const" && e.S == s }
}

func Num(n int) M { return K(strconv.Itoa(n)) }

func Nil(e *Expr) bool { return e != nil && e.Op == "nil" }

func Or(ms ...M) M {
	return func(e *Expr) bool {
		for _, m := range ms {
			if m(e) {
				return true
			}
		}
		return false
	}
}

func And(ms ...M) M {
	return func(e *Expr) bool {
		for _, m := range ms {
			if !m(e) {
				return false
			}
		}
		return true
	}
}

func Not(m M) M { return func(e *Expr) bool { return !m(e) } }

// Strip matches through numeric conversions.
func Strip(m M) M { return func(e *Expr) bool { return e != nil && m(strip(e)) } }

// Sub matches expressions that contain a match.
func Sub(m M) M { return func(e *Expr) bool { return e != nil && contains(e, m) } }

// Call matches a call of a function whose name ends in suffix; ms match the leading arguments.
func Call(suffix string, ms ...M) M {
	return func(e *Expr) bool {
		if e == nil || e.Op != "call" || !nameEnds(e.S, suffix) || len(e.Args) < len(ms) {
			return false
		}
		for i, m := range ms {
			if !m(e.Args[i]) {
				return false
			}
		}
		return true
	}
}

// nameEnds reports whether the function name has the suffix at a component boundary.
func nameEnds(s, suffix string) bool {
	if !strings.HasSuffix(s, suffix) {
		return false
	}
	if len(s) == len(suffix) {
		return true
	}
	c := s[len(s)-len(suffix)-1]
	return c == '/' || c == '.' || c == '(' || c == '*' || suffix[0] == '(' || suffix[0] == '.'
}

func Ext(m M, i int) M {
	return func(e *Expr) bool { return e != nil && e.Op == "ext" && e.S == strconv.Itoa(i) && m(e.Args[0]) }
}

func Param(i int) M {
	s := "$" + strconv.Itoa(i)
	return func(e *Expr) bool { return e != nil && e.Op == "param" && e.S == s }
}

func Global(suffix string) M {
	return func(e *Expr) bool { return e != nil && e.Op == "global" && nameEnds(e.S, suffix) }
}

func Bin(op string, a, b M) M {
	return func(e *Expr) bool {
		e = strip(e)
		if e == nil || e.Op != "bin" || e.S != op {
			return false
		}
		return a(e.Args[0]) && b(e.Args[1]) || commut[op] && a(e.Args[1]) && b(e.Args[0])
	}
}

// Typed matches expressions of the given (package-qualified) type, pointers included.
func Typed(name string) M {
	return func(e *Expr) bool {
		if e == nil || e.T == nil {
			return false
		}
		return typeBase(e.T) == name
	}
}

func typeBase(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- queries ----

// eqs returns the expressions known to be equal to e (including e).
func (fs *Facts) eqs(e *Expr) []*Expr {
	out := []*Expr{e}
	seen := map[string]bool{e.Key(): true}
	for i := 0; i < len(out) && i < 32; i++ {
		x := out[i]
		for _, f := range fs.m {
			if f.Op != "eq" {
				continue
			}
			for j := 0; j < 2; j++ {
				if f.A[j].Key() == x.Key() && f.A[1-j].Op != "const" && f.A[1-j].Op != "nil" && !seen[f.A[1-j].Key()] {
					seen[f.A[1-j].Key()] = true
					out = append(out, f.A[1-j])
				}
			}
		}
		// congruence for containers: index(a, k) where a = b
		switch x.Op {
		case "index", "has", "field":
			for _, b := range fs.eqs1(x.Args[0]) {
				n := *x
				n.key = ""
				n.Args = append([]*Expr{b}, x.Args[1:]...)
				if !seen[n.Key()] {
					seen[n.Key()] = true
					out = append(out, &n)
				}
			}
		}
	}
	return out
}

func (fs *Facts) eqs1(e *Expr) []*Expr {
	var out []*Expr
	for _, f := range fs.m {
		if f.Op != "eq" {
			continue
		}
		for j := 0; j < 2; j++ {
			if f.A[j].Key() == e.Key() && f.A[1-j].Op != "const" && f.A[1-j].Op != "nil" {
				out = append(out, f.A[1-j])
			}
		}
	}
	return out
}

func (fs *Facts) matchUpTo(e *Expr, m M) bool {
	for _, x := range fs.eqs(e) {
		if m(x) {
			return true
		}
	}
	return false
}

// upTo matches what the facts say is equal to something that matches.
func (fs *Facts) upTo(m M) M {
	return func(e *Expr) bool { return e != nil && fs.matchUpTo(e, m) }
}

// Eq: the facts imply x == y for some matches.
func (fs *Facts) Eq(a, b M) bool {
	for _, f := range fs.m {
		if f.Op == "eq" {
			if a(f.A[0]) && b(f.A[1]) || a(f.A[1]) && b(f.A[0]) {
				return true
			}
		}
	}
	// via congruence
	for _, f := range fs.m {
		if f.Op != "eq" {
			continue
		}
		for j := 0; j < 2; j++ {
			if fs.matchUpTo(f.A[j], a) && (b(f.A[1-j]) || fs.matchUpTo(f.A[1-j], b)) {
				return true
			}
		}
	}
	return false
}

func (fs *Facts) Ne(a, b M) bool {
	for _, f := range fs.m {
		if f.Op == "ne" || f.Op == "lt" {
			if a(f.A[0]) && b(f.A[1]) || a(f.A[1]) && b(f.A[0]) {
				return true
			}
		}
		// 2 < x and 1 <= x imply x != 0
		if f.Op == "lt" || f.Op == "le" {
			if n, ok := smallInt(strip(f.A[0])); ok && (n > 0 || n == 0 && f.Op == "lt") {
				if z := intExpr(0); a(f.A[1]) && b(z) || a(z) && b(f.A[1]) {
					return true
				}
			}
		}
	}
	return false
}

// Lt: a < b.
func (fs *Facts) Lt(a, b M) bool {
	for _, f := range fs.m {
		if f.Op == "lt" && a(f.A[0]) && b(f.A[1]) {
			return true
		}
		// a+1 <= b and a <= b-1
		if f.Op == "le" {
			if n, ok := smallInt(strip(f.A[0])); ok && a(intExpr(int(n)-1)) && b(f.A[1]) {
				return true
			}
			if n, ok := smallInt(strip(f.A[1])); ok && a(f.A[0]) && b(intExpr(int(n)+1)) {
				return true
			}
			if x := strip(f.A[0]); x.Op == "bin" && x.S == "+" && x.Args[1].Op == "const" && x.Args[1].S == "1" && a(x.Args[0]) && b(f.A[1]) {
				return true
			}
			if y := strip(f.A[1]); y.Op == "bin" && y.S == "-" && y.Args[1].Op == "const" && y.Args[1].S == "1" && a(f.A[0]) && b(y.Args[0]) {
				return true
			}
		}
	}
	return false
}

// Le: a <= b.
func (fs *Facts) Le(a, b M) bool {
	if fs.Lt(a, b) {
		return true
	}
	for _, f := range fs.m {
		if f.Op == "le" && a(f.A[0]) && b(f.A[1]) {
			return true
		}
		if f.Op == "eq" && (a(f.A[0]) && b(f.A[1]) || a(f.A[1]) && b(f.A[0])) {
			return true
		}
		if f.Op == "lt" {
			if n, ok := smallInt(strip(f.A[0])); ok && a(intExpr(int(n)+1)) && b(f.A[1]) {
				return true
			}
			if n, ok := smallInt(strip(f.A[1])); ok && a(f.A[0]) && b(intExpr(int(n)-1)) {
				return true
			}
			// a < b+1, a-1 < b
			if y := strip(f.A[1]); y.Op == "bin" && y.S == "+" && y.Args[1].Op == "const" && y.Args[1].S == "1" && a(f.A[0]) && b(y.Args[0]) {
				return true
			}
			if x := strip(f.A[0]); x.Op == "bin" && x.S == "-" && x.Args[1].Op == "const" && x.Args[1].S == "1" && a(x.Args[0]) && b(f.A[1]) {
				return true
			}
		}
	}
	return false
}

func (fs *Facts) True(a M) bool {
	for _, f := range fs.m {
		if f.Op == "true" && (a(f.A[0]) || fs.matchUpTo(f.A[0], a)) {
			return true
		}
	}
	return false
}

func (fs *Facts) False(a M) bool {
	for _, f := range fs.m {
		if f.Op == "false" && (a(f.A[0]) || fs.matchUpTo(f.A[0], a)) {
			return true
		}
	}
	return false
}

// NotHas: k is not a key of m, or m[k] is the zero value.
func (fs *Facts) NotHas(m, k M) bool {
	h, x := Has(m, k), Idx(m, k)
	if fs.False(h) || fs.False(x) {
		return true
	}
	return fs.Eq(x, Or(Nil, Num(0), func(e *Expr) bool { return e.Op == "zero" }))
}

// HasKey: k is a key of m.
func (fs *Facts) HasKey(m, k M) bool {
	return fs.True(Has(m, k)) || fs.True(Idx(m, k)) || fs.Ne(Idx(m, k), Nil)
}

func (fs *Facts) IsNil(a M) bool  { return fs.Eq(a, Nil) }
func (fs *Facts) NonNil(a M) bool { return fs.Ne(a, Nil) }

// Did: a call matching a has been made.
// Past is what is or was known: the facts together with those that held directly before a location they are about was
// written on the way. It is meant for conditions that are tested first and then invalidated by remembering the action.
func (fs *Facts) Past() *Facts {
	n := map[string]*Fact{}
	for k, f := range fs.m {
		n[k] = f
		if f.Op == "did" && strings.HasPrefix(f.A[0].S, "was:") {
			g := &Fact{Op: strings.TrimPrefix(f.A[0].S, "was:"), A: f.A[0].Args}
			n[g.Key()] = g
		}
	}
	return &Facts{n}
}

func (fs *Facts) Did(a M) bool {
	for _, f := range fs.m {
		if f.Op == "did" && a(f.A[0]) {
			return true
		}
	}
	return false
}

// All: for every element of a container matching c, a fact satisfying p holds.
func (fs *Facts) All(c M, p func(*Facts) bool) bool {
	byC := map[string]*Facts{}
	for _, f := range fs.m {
		if f.Op == "forall" && c(f.A[0]) {
			k := f.A[0].Key()
			if byC[k] == nil {
				byC[k] = &Facts{m: map[string]*Fact{}}
			}
			byC[k].m[f.In.Key()] = f.In
		}
	}
	for _, x := range byC {
		if p(x) {
			return true
		}
	}
	return false
}

// ---- values ----

// Member: e is (equal to) an element of a container matching c: by an equality with an element.
func (fs *Facts) Member(c, e M) bool { return fs.Eq(Idx(c, Any), e) }

// structFields returns the fields of a constructed object.
func structFields(e *Expr) map[string]*Expr {
	if e != nil && e.Op == "zero" && e.T != nil {
		if st, ok := e.T.Underlying().(*types.Struct); ok {
			m := map[string]*Expr{}
			for i := 0; i < st.NumFields(); i++ {
				m[st.Field(i).Name()] = zeroOf(st.Field(i).Type())
			}
			return m
		}
	}
	if e == nil || (e.Op != "struct" && e.Op != "alloc") {
		return nil
	}
	return e.Fields
}

// freshRoot reports whether the location is inside an object created by the analysed code that
// cannot be (part of) the persistent state.
func freshRoot(e *Expr) bool {
	r := rootOf(e)
	return r.Op == "alloc" || r.Op == "make" || r.Op == "list" || r.Op == "struct" || r.Op == "zero" || r.Op == "nil"
}

func inPkg(fn *ssa.Function, rel string) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return pkgOf(fn) == repoPrefix+rel
}
