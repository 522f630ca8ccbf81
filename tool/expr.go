package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Expr is the canonical description of a value (or of an address: dereferences are dropped, so
// that p, *p, p.f and (*p).f are written in terms of the same access path).
//
// Ops: param free const nil zero global func closure field index has len cap call ext phi opaque
// alloc struct list bin neg not conv ta istype slice tuple
type Expr struct {
	Op     string
	S      string // operator, name, id
	Site   string // call site id for impure calls, context of id-carrying ops
	Obj    types.Object
	Fn     *ssa.Function
	Args   []*Expr
	Fields map[string]*Expr // struct/alloc snapshot
	T      types.Type
	key    string
}

func (e *Expr) Key() string {
	if e == nil {
		return "<nil>"
	}
	if e.key == "" {
		e.key = e.mkKey()
	}
	return e.key
}

func argKeys(as []*Expr) string {
	ks := make([]string, len(as))
	for i, a := range as {
		ks[i] = a.Key()
	}
	return strings.Join(ks, ",")
}

func (e *Expr) mkKey() string {
	switch e.Op {
	case "param", "free", "global", "const":
		return e.S
	case "nil":
		return "nil"
	case "zero":
		return "zero"
	case "func":
		return "fn:" + e.S
	case "phi", "opaque", "alloc":
		return e.Op + "#" + e.S + e.Site
	case "field":
		return e.Args[0].Key() + "." + e.S
	case "index":
		return e.Args[0].Key() + "[" + e.Args[1].Key() + "]"
	case "call":
		return e.S + "(" + argKeys(e.Args) + ")" + e.Site
	case "struct":
		names := make([]string, 0, len(e.Fields))
		for n := range e.Fields {
			names = append(names, n)
		}
		sort.Strings(names)
		var b strings.Builder
		b.WriteString("{")
		if len(e.Args) > 0 {
			b.WriteString(e.Args[0].Key() + "|")
		}
		for _, n := range names {
			b.WriteString(n + ":" + e.Fields[n].Key() + ";")
		}
		b.WriteString("}")
		return b.String()
	case "bin":
		return "(" + e.Args[0].Key() + e.S + e.Args[1].Key() + ")"
	case "conv", "ta", "istype":
		return e.Op + ":" + e.S + "(" + argKeys(e.Args) + ")"
	case "ext":
		return e.Args[0].Key() + "#" + e.S
	case "closure":
		return "fn:" + e.S + "{" + argKeys(e.Args) + "}"
	default:
		return e.Op + "(" + argKeys(e.Args) + ")"
	}
}

func (e *Expr) String() string { return e.Key() }

var nilExpr = &Expr{Op: "nil"}

func constExpr(v constant.Value, t types.Type) *Expr {
	return &Expr{Op: "const", S: v.ExactString(), T: t}
}

func boolExpr(b bool) *Expr { return &Expr{Op: "const", S: strconv.FormatBool(b)} }
func intExpr(i int) *Expr   { return &Expr{Op: "const", S: strconv.Itoa(i)} }

func zeroOf(t types.Type) *Expr {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolExpr(false)
		case u.Info()&types.IsNumeric != 0:
			return &Expr{Op: "const", S: "0", T: t}
		case u.Info()&types.IsString != 0:
			return &Expr{Op: "const", S: `""`, T: t}
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan, *types.Signature:
		return nilExpr
	}
	return &Expr{Op: "zero", T: t}
}

func structType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldOf returns the expression for field f of e.
func fieldOf(e *Expr, f *types.Var) *Expr {
	switch e.Op {
	case "struct", "alloc":
		if v, ok := e.Fields[f.Name()]; ok {
			return v
		}
		if e.Op == "struct" && len(e.Args) > 0 {
			return fieldOf(e.Args[0], f)
		}
	case "zero":
		return zeroOf(f.Type())
	}
	return &Expr{Op: "field", S: f.Name(), Obj: f, Args: []*Expr{e}, T: f.Type()}
}

func indexOf(e, i *Expr, t types.Type) *Expr {
	if e.Op == "list" && i.Op == "const" {
		if n, err := strconv.Atoi(i.S); err == nil && n >= 0 && n < len(e.Args) {
			return e.Args[n]
		}
	}
	return &Expr{Op: "index", Args: []*Expr{e, i}, T: t}
}

func lenOf(e *Expr) *Expr {
	switch e.Op {
	case "list":
		return intExpr(len(e.Args))
	case "nil":
		return intExpr(0)
	case "conv":
		return lenOf(e.Args[0])
	}
	return &Expr{Op: "len", Args: []*Expr{e}, T: types.Typ[types.Int]}
}

func extOf(e *Expr, i int, t types.Type) *Expr {
	if e.Op == "tuple" && i < len(e.Args) {
		return e.Args[i]
	}
	return &Expr{Op: "ext", S: strconv.Itoa(i), Args: []*Expr{e}, T: t}
}

func notOf(e *Expr) *Expr {
	if e.Op == "not" {
		return e.Args[0]
	}
	if e.Op == "const" {
		return boolExpr(e.S != "true")
	}
	return &Expr{Op: "not", Args: []*Expr{e}}
}

func constVal(e *Expr) (constant.Value, bool) {
	if e.Op != "const" {
		return nil, false
	}
	switch e.S {
	case "true":
		return constant.MakeBool(true), true
	case "false":
		return constant.MakeBool(false), true
	}
	if strings.HasPrefix(e.S, `"`) {
		s, err := strconv.Unquote(e.S)
		if err != nil {
			return nil, false
		}
		return constant.MakeString(s), true
	}
	v := constant.MakeFromLiteral(strings.TrimPrefix(e.S, "-"), 5 /*token.INT*/, 0)
	if v.Kind() == constant.Unknown {
		return nil, false
	}
	if strings.HasPrefix(e.S, "-") {
		v = constant.UnaryOp(13 /*token.SUB*/, v, 0)
	}
	return v, true
}

var commut = map[string]bool{"+": true, "*": true, "&": true, "|": true, "^": true, "==": true, "!=": true}

func binOf(op string, a, b *Expr, t types.Type) *Expr {
	if ia, ok := smallInt(a); ok {
		if ib, ok := smallInt(b); ok {
			switch op {
			case "+":
				return &Expr{Op: "const", S: strconv.FormatInt(ia+ib, 10), T: t}
			case "-":
				if ia >= ib || isSigned(t) {
					return &Expr{Op: "const", S: strconv.FormatInt(ia-ib, 10), T: t}
				}
			case "*":
				return &Expr{Op: "const", S: strconv.FormatInt(ia*ib, 10), T: t}
			}
		}
	}
	// (x + c1) + c2, (x - c1) + c2 ...
	if ib, ok := smallInt(b); ok && (op == "+" || op == "-") && a.Op == "bin" && (a.S == "+" || a.S == "-") {
		if ia, ok := smallInt(a.Args[1]); ok {
			if a.S == "-" {
				ia = -ia
			}
			if op == "-" {
				ib = -ib
			}
			n := ia + ib
			switch {
			case n == 0:
				return a.Args[0]
			case n > 0:
				return &Expr{Op: "bin", S: "+", Args: []*Expr{a.Args[0], {Op: "const", S: strconv.FormatInt(n, 10), T: t}}, T: t}
			default:
				return &Expr{Op: "bin", S: "-", Args: []*Expr{a.Args[0], {Op: "const", S: strconv.FormatInt(-n, 10), T: t}}, T: t}
			}
		}
	}
	if commut[op] && (a.Op == "const" && b.Op != "const" || (b.Op != "const" && a.Key() > b.Key())) {
		a, b = b, a
	}
	return &Expr{Op: "bin", S: op, Args: []*Expr{a, b}, T: t}
}

func isSigned(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func smallInt(e *Expr) (int64, bool) {
	if e.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(e.S, 10, 64)
	if err != nil || n > 1<<40 || n < -(1<<40) {
		return 0, false
	}
	return n, true
}

// convOf converts e to type t. Conversions between types with the same representation and
// string/[]byte conversions are transparent, lossless integer conversions are too; the others are
// kept, because they may change the value.
func convOf(e *Expr, from, to types.Type) *Expr {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if e.Op == "const" {
			return &Expr{Op: "const", S: e.S, T: to}
		}
		if fb.Kind() == tb.Kind() || lossless(fb, tb) {
			return e
		}
		if n, _ := bits(tb); e.Op == "len" && n >= 32 { // lengths are never negative
			return e
		}
		return &Expr{Op: "conv", S: tb.Name(), Args: []*Expr{e}, T: to}
	}
	return e
}

func bits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func lossless(f, t *types.Basic) bool {
	fn, fs := bits(f)
	tn, ts := bits(t)
	if fn == 0 || tn == 0 {
		return false
	}
	if fs == ts {
		return tn >= fn
	}
	return !fs && ts && tn > fn
}

// narrows: the conversion is to a smaller type of integers, so that different values may become equal.
func narrows(e *Expr) bool {
	if e.Op != "conv" || e.T == nil || e.Args[0].T == nil {
		return false
	}
	tb, ok1 := e.T.Underlying().(*types.Basic)
	fb, ok2 := e.Args[0].T.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	tn, _ := bits(tb)
	fn, _ := bits(fb)
	return tn != 0 && tn < fn
}

// strip removes numeric conversions, except to smaller types.
func strip(e *Expr) *Expr {
	for e != nil && e.Op == "conv" && !narrows(e) {
		e = e.Args[0]
	}
	return e
}

// walkExpr calls f for e and all its subexpressions until f returns false.
func walkExpr(e *Expr, f func(*Expr) bool) bool {
	if e == nil {
		return true
	}
	if !f(e) {
		return false
	}
	for _, a := range e.Args {
		if !walkExpr(a, f) {
			return false
		}
	}
	for _, a := range e.Fields {
		if !walkExpr(a, f) {
			return false
		}
	}
	return true
}

func contains(e *Expr, p func(*Expr) bool) bool {
	found := false
	walkExpr(e, func(x *Expr) bool {
		if p(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

// root strips fields and indexes.
func rootOf(e *Expr) *Expr {
	for {
		switch e.Op {
		case "field", "index", "ta", "slice", "conv":
			e = e.Args[0]
		default:
			return e
		}
	}
}

type subst struct {
	m   map[string]*Expr // by key of param/free
	ctx string
	rep map[string]*Expr // replacement of whole expressions (by callee key), applied first
	mem map[*Expr]*Expr
	f   func(*Expr) *Expr // replacement of leaves, nil to keep
}

func (s *subst) expr(e *Expr) *Expr {
	if e == nil {
		return nil
	}
	if r, ok := s.mem[e]; ok {
		return r
	}
	r := s.expr1(e)
	if s.mem == nil {
		s.mem = map[*Expr]*Expr{}
	}
	s.mem[e] = r
	return r
}

func (s *subst) exprs(es []*Expr) []*Expr {
	out := make([]*Expr, len(es))
	for i, e := range es {
		out[i] = s.expr(e)
	}
	return out
}

func (s *subst) expr1(e *Expr) *Expr {
	if s.f != nil {
		if r := s.f(e); r != nil {
			return r
		}
	}
	if s.rep != nil {
		if r, ok := s.rep[e.Key()]; ok {
			return r
		}
	}
	switch e.Op {
	case "param", "free":
		if r, ok := s.m[e.S]; ok {
			return r
		}
		return e
	case "const", "nil", "zero", "global", "func":
		return e
	case "field":
		return fieldOf(s.expr(e.Args[0]), e.Obj.(*types.Var))
	case "index":
		return indexOf(s.expr(e.Args[0]), s.expr(e.Args[1]), e.T)
	case "len":
		return lenOf(s.expr(e.Args[0]))
	case "ext":
		n, _ := strconv.Atoi(e.S)
		return extOf(s.expr(e.Args[0]), n, e.T)
	case "bin":
		return binOf(e.S, s.expr(e.Args[0]), s.expr(e.Args[1]), e.T)
	case "not":
		return notOf(s.expr(e.Args[0]))
	}
	n := &Expr{Op: e.Op, S: e.S, Site: e.Site, Obj: e.Obj, Fn: e.Fn, T: e.T}
	switch e.Op {
	case "phi", "opaque", "alloc":
		n.Site = e.Site + s.ctx
	case "call":
		if e.Site != "" {
			n.Site = e.Site + s.ctx
		}
	}
	if len(e.Args) > 0 {
		n.Args = s.exprs(e.Args)
		if e.Op == "part" && n.Args[0].Op == "len" {
			n.Args[0] = n.Args[0].Args[0] // it was given as a number only
		}
	}
	if e.Fields != nil {
		n.Fields = make(map[string]*Expr, len(e.Fields))
		for k, v := range e.Fields {
			n.Fields[k] = s.expr(v)
		}
	}
	return n
}

// Fact is a condition that is known to hold.
type Fact struct {
	Op  string // eq ne lt le true false did forall
	A   []*Expr
	In  *Fact
	key string
}

func (f *Fact) Key() string {
	if f.key == "" {
		f.key = f.Op + "(" + argKeys(f.A)
		if f.In != nil {
			f.key += "|" + f.In.Key()
		}
		f.key += ")"
	}
	return f.key
}

func (f *Fact) String() string { return f.Key() }

func mkFact(op string, a ...*Expr) *Fact {
	if op == "le" && a[0].Op == "len" && a[1].Op == "const" && a[1].S == "0" || op == "lt" && a[0].Op == "len" && a[1].Op == "const" && a[1].S == "1" {
		return &Fact{Op: "eq", A: []*Expr{a[0], {Op: "const", S: "0", T: a[1].T}}}
	}
	if op == "eq" || op == "ne" {
		if a[0].Op == "const" || a[0].Op == "nil" || (a[1].Op != "const" && a[1].Op != "nil" && a[0].Key() > a[1].Key()) {
			a[0], a[1] = a[1], a[0]
		}
		if a[1].Op == "nil" {
			if w := wrapped(a[0]); w != a[0] {
				a = []*Expr{w, a[1]}
			}
		}
	}
	return &Fact{Op: op, A: a}
}

func (f *Fact) subst(s *subst) *Fact {
	if f.In != nil {
		return &Fact{Op: f.Op, A: s.exprs(f.A), In: f.In.subst(s)}
	}
	if f.Op == "true" || f.Op == "false" {
		return lit(s.expr(f.A[0]), f.Op == "true")
	}
	return mkFact(f.Op, s.exprs(f.A)...)
}

func (f *Fact) mentions(p func(*Expr) bool) bool {
	for _, a := range f.A {
		if contains(a, p) {
			return true
		}
	}
	return f.In != nil && f.In.mentions(p)
}

// lit returns the fact that e evaluates to pos.
func lit(e *Expr, pos bool) *Fact {
	if e.Op == "not" {
		return lit(e.Args[0], !pos)
	}
	if e.Op == "bin" {
		a, b := e.Args[0], e.Args[1]
		switch e.S {
		case "==":
			if pos {
				return mkBoolEq(a, b, true)
			}
			return mkBoolEq(a, b, false)
		case "!=":
			return mkBoolEq(a, b, !pos)
		case "<":
			if pos {
				return mkFact("lt", a, b)
			}
			return mkFact("le", b, a)
		case "<=":
			if pos {
				return mkFact("le", a, b)
			}
			return mkFact("lt", b, a)
		case ">":
			if pos {
				return mkFact("lt", b, a)
			}
			return mkFact("le", a, b)
		case ">=":
			if pos {
				return mkFact("le", b, a)
			}
			return mkFact("lt", a, b)
		}
	}
	if pos {
		return mkFact("true", e)
	}
	return mkFact("false", e)
}

func mkBoolEq(a, b *Expr, pos bool) *Fact {
	if a.Op == "const" && (a.S == "true" || a.S == "false") && b.Op != "const" {
		a, b = b, a
	}
	if b.Op == "const" && (b.S == "true" || b.S == "false") && a.Op != "const" {
		return lit(a, pos == (b.S == "true"))
	}
	if pos {
		return mkFact("eq", a, b)
	}
	return mkFact("ne", a, b)
}

// nonNil reports whether e is never nil.
func nonNil(e *Expr) bool {
	switch e.Op {
	case "alloc", "closure", "func", "struct", "list":
		return true
	case "call":
		switch e.S {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return true
		case "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage":
			return len(e.Args) > 0 && nonNil(e.Args[0])
		}
	case "global":
		// sentinel errors
		if v, ok := e.Obj.(*types.Var); ok && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

// wrapped looks through functions that return nil iff their first argument is nil.
func wrapped(e *Expr) *Expr {
	for e.Op == "call" && len(e.Args) > 0 {
		switch e.S {
		case "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage":
			e = e.Args[0]
		default:
			return e
		}
	}
	return e
}

// eval tries to decide the fact without further knowledge: 1 true, -1 false, 0 unknown.
func (f *Fact) eval() int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return -1
	}
	switch f.Op {
	case "true", "false":
		if f.A[0].Op == "const" {
			return b((f.A[0].S == "true") == (f.Op == "true"))
		}
	case "eq", "ne":
		x, y := f.A[0], f.A[1]
		if x.Key() == y.Key() && x.Op != "opaque" {
			return b(f.Op == "eq")
		}
		if x.Op == "const" && y.Op == "const" {
			return b((x.S == y.S) == (f.Op == "eq"))
		}
		if y.Op == "nil" && nonNil(x) {
			return b(f.Op == "ne")
		}
	case "lt", "le":
		x, y := f.A[0], f.A[1]
		ix, ok1 := smallInt(x)
		iy, ok2 := smallInt(y)
		if ok1 && ok2 {
			if f.Op == "lt" {
				return b(ix < iy)
			}
			return b(ix <= iy)
		}
		if x.Key() == y.Key() && x.Op != "opaque" {
			return b(f.Op == "le")
		}
		if f.Op == "lt" && ok2 && iy == 0 && y.T != nil && !isSigned(y.T) {
			return -1 // unsigned < 0
		}
		if l, ok := lowerBound(x); ok && ok2 && (f.Op == "lt" && l >= iy || f.Op == "le" && l > iy) {
			return -1
		}
		if l, ok := lowerBound(y); ok && ok1 && (f.Op == "lt" && ix < l || f.Op == "le" && ix <= l) {
			return 1
		}
	}
	return 0
}

// lowerBound returns a constant that a counter or a length is never below.
func lowerBound(e *Expr) (int64, bool) {
	e = strip(e)
	switch e.Op {
	case "len":
		return 0, true
	case "phi":
		if i := strings.LastIndex(e.S, "≥"); i >= 0 {
			n, err := strconv.ParseInt(e.S[i+len("≥"):], 10, 64)
			return n, err == nil
		}
	case "bin":
		if e.S == "+" {
			if n, ok := smallInt(e.Args[1]); ok {
				if l, ok := lowerBound(e.Args[0]); ok {
					return l + n, true
				}
			}
		}
	}
	return 0, false
}

func (f *Fact) neg() *Fact {
	switch f.Op {
	case "true":
		return mkFact("false", f.A[0])
	case "false":
		return mkFact("true", f.A[0])
	case "eq":
		return mkFact("ne", f.A[0], f.A[1])
	case "ne":
		return mkFact("eq", f.A[0], f.A[1])
	case "lt":
		return mkFact("le", f.A[1], f.A[0])
	case "le":
		return mkFact("lt", f.A[1], f.A[0])
	}
	return nil
}

// Facts is an immutable set of facts.
type Facts struct {
	m map[string]*Fact
}

var noFacts = &Facts{m: map[string]*Fact{}}

func (fs *Facts) has(f *Fact) bool { _, ok := fs.m[f.Key()]; return ok }

// add returns the set with f added, or nil if it becomes contradictory.
func (fs *Facts) add(f *Fact) *Facts {
	switch f.eval() {
	case 1:
		return fs
	case -1:
		return nil
	}
	if fs.has(f) {
		return fs
	}
	if n := f.neg(); n != nil && fs.has(n) {
		return nil
	}
	switch f.Op {
	case "eq":
		if fs.has(mkFact("lt", f.A[0], f.A[1])) || fs.has(mkFact("lt", f.A[1], f.A[0])) {
			return nil
		}
		if f.A[1].Op == "const" || f.A[1].Op == "nil" {
			for _, g := range fs.m {
				if g.Op == "eq" && g.A[0].Key() == f.A[0].Key() && g.A[1].Op == f.A[1].Op && g.A[1].S != f.A[1].S {
					return nil
				}
				if f.A[1].Op == "const" && (g.Op == "lt" || g.Op == "le") {
					if g.A[0].Key() == f.A[0].Key() && (&Fact{Op: g.Op, A: []*Expr{f.A[1], g.A[1]}}).eval() == -1 {
						return nil
					}
					if g.A[1].Key() == f.A[0].Key() && (&Fact{Op: g.Op, A: []*Expr{g.A[0], f.A[1]}}).eval() == -1 {
						return nil
					}
				}
			}
		}
	case "lt":
		if fs.has(mkFact("eq", f.A[0], f.A[1])) || fs.has(mkFact("lt", f.A[1], f.A[0])) {
			return nil
		}
	}
	n := make(map[string]*Fact, len(fs.m)+1)
	for k, v := range fs.m {
		n[k] = v
	}
	n[f.Key()] = f
	if f.Op == "false" && (f.A[0].Op == "has" || f.A[0].Op == "index") {
		// remembered even if the map changes later
		g := &Fact{Op: "did", A: []*Expr{{Op: "call", S: "absent", Args: f.A[0].Args}}}
		n[g.Key()] = g
	}
	return &Facts{n}
}

func (fs *Facts) addAll(o *Facts) *Facts {
	r := fs
	for _, f := range o.m {
		if r = r.add(f); r == nil {
			return nil
		}
	}
	return r
}

func (fs *Facts) filter(keep func(*Fact) bool) *Facts {
	changed := false
	for _, f := range fs.m {
		if !keep(f) {
			changed = true
			break
		}
	}
	if !changed {
		return fs
	}
	n := make(map[string]*Fact, len(fs.m))
	for k, f := range fs.m {
		if keep(f) {
			n[k] = f
		}
	}
	return &Facts{n}
}

func (fs *Facts) intersect(o *Facts) *Facts {
	return fs.filter(func(f *Fact) bool { return o.has(f) })
}

func (fs *Facts) sameAs(o *Facts) bool {
	if len(fs.m) != len(o.m) {
		return false
	}
	for k := range fs.m {
		if _, ok := o.m[k]; !ok {
			return false
		}
	}
	return true
}

func (fs *Facts) keys() []string {
	ks := make([]string, 0, len(fs.m))
	for k := range fs.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (fs *Facts) subst(s *subst) *Facts {
	r := noFacts
	for _, f := range fs.m {
		if r = r.add(f.subst(s)); r == nil {
			return nil
		}
	}
	return r
}

func (fs *Facts) String() string { return fmt.Sprintf("[%s]", strings.Join(fs.keys(), " ∧ ")) }
