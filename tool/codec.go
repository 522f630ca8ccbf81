package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Codec chains: backward dataflow from a value to what it is made of, with the conversions in between.
// Helper functions are followed, loops and appending are transparent: what holds for the list holds for
// its elements. Two chains are inverse to each other if they consist of the same conversions.

type cchain struct {
	ops []string // the last conversion first
	src string   // parameter of the root function and selectors, or a constant
}

func (c cchain) String() string { return c.src + " " + strings.Join(c.ops, "<-") }

type tctx struct {
	fn   *ssa.Function
	args []ssa.Value // nil: parameters are sources
	up   *tctx
	bind []ssa.Value
	n    int
}

type tracer struct {
	e     *Engine
	seen  map[string]bool
	ids   map[interface{}]int
	out   map[string]cchain
	prune func(t types.Type) bool
	steps int
	// primitive: repository functions that count as conversions
	primitive map[string]bool
	opaque    map[*ssa.Function]bool
}

func newTracer(e *Engine) *tracer {
	return &tracer{e: e, primitive: map[string]bool{"GobEncode": true, "GobDecode": true}}
}

func (t *tracer) id(x interface{}) string {
	n, ok := t.ids[x]
	if !ok {
		n = len(t.ids) + 1
		t.ids[x] = n
	}
	return strconv.Itoa(n)
}

// chains of v (at the selectors path) seen from the parameters of root.
func (t *tracer) chains(v ssa.Value, path ...string) []cchain {
	return t.chainsIn(v, nil, path...)
}

func (t *tracer) chainsIn(v ssa.Value, cx *tctx, path ...string) []cchain {
	t.seen, t.ids, t.out, t.steps = map[string]bool{}, map[interface{}]int{}, map[string]cchain{}, 0
	if cx == nil {
		cx = &tctx{}
	}
	t.trace(v, path, cx, nil)
	var r []cchain
	for _, c := range t.out {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (t *tracer) emit(src string, ops []string) {
	c := cchain{ops: append([]string{}, ops...), src: src}
	t.out[c.String()] = c
}

func selString(path []string) string {
	s := ""
	for _, p := range path {
		if p != "*" {
			s += p
		}
	}
	return s
}

// apply enters a conversion.
func with(ops []string, op string, path []string) []string {
	op += selString(path)
	return append(ops[:len(ops):len(ops)], op)
}

func (t *tracer) trace(v ssa.Value, path []string, cx *tctx, ops []string) {
	if v == nil {
		return
	}
	k := t.id(v) + "/" + t.id(cx) + "/" + strings.Join(path, "") + "/" + strings.Join(ops, "<")
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	t.steps++
	if t.steps > 20000 || len(ops) > 12 || len(path) > 8 || cx.n > 14 {
		t.emit("?", ops)
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return
		}
		switch x.Value.Kind() {
		case constant.String:
			t.emit("const:"+constant.StringVal(x.Value), ops)
		default:
			if x.Value.ExactString() == "0" || x.Value.ExactString() == "false" {
				t.emit("const:zero", ops)
			} else {
				t.emit("const:"+x.Value.ExactString(), ops)
			}
		}
	case *ssa.Parameter:
		i := paramIndex(x)
		if cx.args == nil {
			t.emit("p"+strconv.Itoa(i)+selString(path), ops)
		} else if i >= 0 && i < len(cx.args) {
			t.trace(cx.args[i], path, cx.up, ops)
		}
	case *ssa.FreeVar:
		for i, f := range x.Parent().FreeVars {
			if f == x && i < len(cx.bind) {
				t.trace(cx.bind[i], path, cx.up, ops)
				return
			}
		}
		t.emit("?free", ops)
	case *ssa.Phi:
		for _, y := range x.Edges {
			t.trace(y, path, cx, ops)
		}
	case *ssa.ChangeType:
		t.trace(x.X, path, cx, ops)
	case *ssa.ChangeInterface:
		t.trace(x.X, path, cx, ops)
	case *ssa.MakeInterface:
		if t.prune != nil && t.prune(x.X.Type()) {
			return
		}
		t.trace(x.X, path, cx, ops)
	case *ssa.TypeAssert:
		t.trace(x.X, path, cx, ops)
	case *ssa.SliceToArrayPointer:
		t.trace(x.X, path, cx, ops)
	case *ssa.Convert:
		a, ok1 := x.X.Type().Underlying().(*types.Basic)
		b, ok2 := x.Type().Underlying().(*types.Basic)
		if ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsString != 0 {
			ops = with(ops, "rune", path)
		} else if ok1 && ok2 && a.Kind() != b.Kind() {
			ops = with(ops, "num:"+a.Name()+">"+b.Name(), path)
		}
		t.trace(x.X, path, cx, ops)
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			t.call(y, x.Index, path, cx, ops)
		case *ssa.Next:
			if r, ok := y.Iter.(*ssa.Range); ok {
				t.trace(r.X, append([]string{"*"}, path...), cx, ops)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				t.trace(y.X, path, cx, ops)
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				t.trace(y.X, append([]string{"*"}, path...), cx, ops)
			}
		default:
			t.emit("?"+x.Tuple.Name(), ops)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.trace(x.X, path, cx, ops)
		} else {
			t.trace(x.X, nil, cx, with(ops, x.Op.String(), path))
		}
	case *ssa.FieldAddr:
		t.trace(x.X, append([]string{"." + fieldNameAt(x.X.Type(), x.Field)}, path...), cx, ops)
	case *ssa.Field:
		t.trace(x.X, append([]string{"." + fieldNameAt(x.X.Type(), x.Field)}, path...), cx, ops)
	case *ssa.IndexAddr:
		t.trace(x.X, append([]string{idxSel(x.Index)}, path...), cx, ops)
	case *ssa.Index:
		t.trace(x.X, append([]string{idxSel(x.Index)}, path...), cx, ops)
	case *ssa.Lookup:
		t.trace(x.X, append([]string{"*"}, path...), cx, ops)
	case *ssa.Slice:
		if isZeroIdx(x.Low) && x.High == nil {
			if n := named(x.X.Type()); n != nil && n.Obj().Name() == "Address" {
				ops, path = with(ops, "addrbytes", path), nil
			}
			t.trace(x.X, path, cx, ops)
			return
		}
		t.trace(x.X, path, cx, with(ops, "["+boundText(x.Low)+":"+boundText(x.High)+"]", nil))
	case *ssa.Alloc:
		t.object(x, path, cx, ops)
	case *ssa.MakeSlice:
		t.object(x, path, cx, ops)
	case *ssa.MakeMap:
		t.object(x, path, cx, ops)
	case *ssa.Call:
		t.call(x, -1, path, cx, ops)
	case *ssa.BinOp:
		ops = with(ops, x.Op.String(), path)
		t.trace(x.X, nil, cx, ops)
		t.trace(x.Y, nil, cx, ops)
	case *ssa.Global:
		t.emit("global:"+x.Pkg.Pkg.Name()+"."+x.Name()+selString(path), ops)
	default:
		t.emit("?"+v.Name(), ops)
	}
}

func isZeroIdx(v ssa.Value) bool {
	if v == nil {
		return true
	}
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func boundText(v ssa.Value) string {
	if v == nil {
		return ""
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value.ExactString()
	}
	return "?"
}

func idxSel(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return "#" + c.Value.ExactString()
	}
	return "*"
}

func fieldNameAt(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

func selMatch(want, have string) bool {
	if want == have || want == "*" && (have == "*" || have[0] == '#') || have == "*" && want[0] == '#' {
		return true
	}
	return false
}

// object: what is written into an object that is made here.
func (t *tracer) object(p ssa.Value, path []string, cx *tctx, ops []string) {
	rs := p.Referrers()
	if rs == nil {
		return
	}
	k := "obj" + t.id(p) + "/" + t.id(cx) + "/" + strings.Join(path, "") + "/" + strings.Join(ops, "<")
	if t.seen[k] {
		return
	}
	t.seen[k] = true
	into := func(sel string, sub ssa.Value) {
		switch {
		case len(path) == 0:
			if sel[0] == '.' {
				t.object(sub, nil, cx, with(ops, sel, nil))
			} else {
				t.object(sub, nil, cx, ops)
			}
		case selMatch(path[0], sel):
			t.object(sub, path[1:], cx, ops)
		case sel[0] != '.' && path[0][0] == '.':
			// an element of a list that is seen as its elements
			t.object(sub, path, cx, ops)
		}
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == p {
				t.trace(x.Val, path, cx, ops)
			}
		case *ssa.FieldAddr:
			if x.X == p {
				into("."+fieldNameAt(x.X.Type(), x.Field), x)
			}
		case *ssa.IndexAddr:
			if x.X == p {
				into(idxSel(x.Index), x)
			}
		case *ssa.Slice:
			t.object(x, path, cx, ops)
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert:
			t.object(x.(ssa.Value), path, cx, ops)
		case *ssa.MapUpdate:
			if x.Map == p {
				rest := path
				if len(rest) > 0 && rest[0] == "*" {
					rest = rest[1:]
				}
				t.trace(x.Value, rest, cx, ops)
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == p && i < len(f.FreeVars) {
					t.object(f.FreeVars[i], path, &tctx{fn: f, args: []ssa.Value{}, up: cx, bind: x.Bindings, n: cx.n + 1}, ops)
				}
			}
		case *ssa.UnOp:
			// a slice or pointer that is kept in a variable: what is written through it
			if x.Op == token.MUL && x.X == p {
				switch x.Type().Underlying().(type) {
				case *types.Slice, *types.Pointer, *types.Map:
					t.object(x, path, cx, ops)
				}
			}
		case ssa.CallInstruction:
			t.filled(x, p, path, cx, ops)
		}
	}
}

// filled: the call may write into the object p.
func (t *tracer) filled(c ssa.CallInstruction, p ssa.Value, path []string, cx *tctx, ops []string) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && cc.Args[0] == p {
			t.trace(cc.Args[1], path, cx, ops)
		}
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		return
	}
	if t.e.P.InRepo(f) && isSource(f) && !t.primitive[f.Name()] {
		for i, a := range cc.Args {
			if a == p && i < len(f.Params) {
				t.object(f.Params[i], path, &tctx{fn: f, args: cc.Args, up: cx, n: cx.n + 1}, ops)
			}
		}
		return
	}
	op, data, recv := filler(f, cc)
	if op == "" || stripIface(recv) != stripIface(p) {
		return
	}
	if op == "copy" {
		t.trace(data, path, cx, ops)
		return
	}
	t.trace(data, nil, cx, with(ops, op, path))
}

// filler: functions that fill an object from data.
func filler(f *ssa.Function, cc *ssa.CallCommon) (op string, data, into ssa.Value) {
	a := cc.Args
	recv := ""
	if f.Signature.Recv() != nil {
		if n := named(f.Signature.Recv().Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	switch f.Name() {
	case "SetBytes":
		if len(a) == 2 {
			switch recv {
			case "Int":
				return "bigbytes", a[1], a[0]
			case "Address":
				return "addrbytes", a[1], a[0]
			}
			return "setbytes:" + recv, a[1], a[0]
		}
	case "Set":
		if len(a) == 2 && recv != "" {
			return "copy", a[1], a[0]
		}
	case "SetUint64":
		if len(a) == 2 {
			return "biguint", a[1], a[0]
		}
	case "GobDecode":
		if len(a) == 2 {
			return "gob:" + recv, a[1], a[0]
		}
	case "Unmarshal":
		if recv != "" && len(a) == 2 {
			return "marshal:" + recv, a[1], a[0]
		}
		if len(a) == 2 {
			return pkgOf(f), a[0], stripIface(a[1])
		}
	case "UnmarshalText", "UnmarshalBinary", "UnmarshalJSON":
		if len(a) == 2 {
			return strings.TrimPrefix(f.Name(), "Unmarshal") + ":" + recv, a[1], a[0]
		}
	}
	return "", nil, nil
}

func stripIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

func (t *tracer) call(c *ssa.Call, idx int, path []string, cx *tctx, ops []string) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			gen := append([]string{}, path...)
			if len(gen) > 0 && gen[0][0] == '#' {
				gen[0] = "*"
			}
			t.trace(cc.Args[0], gen, cx, ops)
			t.trace(cc.Args[1], gen, cx, ops)
		case "ssa:wrapnilchk":
			t.trace(cc.Args[0], path, cx, ops)
		default:
			for _, a := range cc.Args {
				t.trace(a, nil, cx, with(ops, b.Name(), path))
			}
		}
		return
	}
	f := cc.StaticCallee()
	args := cc.Args
	var bind []ssa.Value
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		bind = mc.Bindings
	}
	if f == nil {
		if fs := t.e.P.Callees(cc); len(fs) == 1 {
			f = fs[0]
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
		}
	}
	if f == nil && cc.IsInvoke() && cc.Method.Name() == "Sum" && len(args) == 1 && constText(args[0]) == "nil" {
		if name, ws := hashWrites(cc.Value); ws != nil {
			for i, w := range ws {
				t.trace(w, nil, cx, with(ops, fmt.Sprintf("%s %d/%d", name, i+1, len(ws)), path))
			}
			return
		}
	}
	if f == nil {
		n := "?dynamic"
		if cc.IsInvoke() {
			n = "?" + cc.Method.Name()
			t.trace(cc.Value, nil, cx, with(ops, n, path))
		}
		for _, a := range args {
			t.trace(a, nil, cx, with(ops, n, path))
		}
		return
	}
	if t.e.P.InRepo(f) && isSource(f) && !t.primitive[f.Name()] && !t.opaque[f] {
		j := idx
		if j < 0 {
			j = 0
		}
		n := &tctx{fn: f, args: args, up: cx, bind: bind, n: cx.n + 1}
		if n.args == nil {
			n.args = []ssa.Value{}
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > j {
				t.trace(r.Results[j], path, n, ops)
			}
		}
		return
	}
	if idx > 0 {
		t.emit("?"+fnName(f)+"#"+strconv.Itoa(idx), ops)
		return
	}
	if op, data, into := filler(f, cc); op != "" && into != nil {
		if op == "copy" {
			t.trace(data, path, cx, ops)
		} else {
			t.trace(data, nil, cx, with(ops, op, path))
		}
		return
	}
	op, data := conversion(f, args)
	if op == "copy" {
		for _, d := range data {
			t.trace(d, path, cx, ops)
		}
		return
	}
	if strings.HasPrefix(op, ".") {
		t.trace(data[0], append([]string{op}, path...), cx, ops)
		return
	}
	if len(path) > 0 && path[0] == "*" {
		path = path[1:]
	}
	for _, d := range data {
		t.trace(d, nil, cx, with(ops, op, path))
	}
}

func constText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
		return x.Value.ExactString()
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return g.Name()
		}
	case *ssa.Convert:
		return constText(x.X)
	case *ssa.ChangeType:
		return constText(x.X)
	}
	return "?"
}

// conversion names what an external function does; functions that are inverse to each other have the
// same name.
func conversion(f *ssa.Function, a []ssa.Value) (string, []ssa.Value) {
	recv := ""
	if f.Signature.Recv() != nil {
		if n := named(f.Signature.Recv().Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	pkg := pkgOf(f)
	switch pkg + "." + f.Name() {
	case "strconv.FormatUint":
		return "uint:" + constText(a[1]), a[:1]
	case "strconv.ParseUint":
		if constText(a[2]) == "64" {
			return "uint:" + constText(a[1]), a[:1]
		}
		return "uint:" + constText(a[1]) + "/" + constText(a[2]), a[:1]
	case "strconv.AppendUint":
		if constText(a[0]) == "nil" {
			return "uint:" + constText(a[2]), a[1:2]
		}
	case "strconv.FormatInt":
		return "int:" + constText(a[1]), a[:1]
	case "strconv.ParseInt":
		if constText(a[2]) == "64" {
			return "int:" + constText(a[1]), a[:1]
		}
		return "int:" + constText(a[1]) + "/" + constText(a[2]), a[:1]
	case "fmt.Sprintf", "fmt.Sprint":
		var format string
		args := a
		if f.Name() == "Sprintf" {
			format, args = constText(a[0]), a[1:]
		} else {
			format = "%v"
		}
		els := literalElems(args[0])
		if len(els) == 1 {
			x := stripIface(els[0])
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && (format == "%d" || format == "%v") {
				return "uint:10", []ssa.Value{x}
			} else if ok && b.Info()&types.IsInteger != 0 && (format == "%d" || format == "%v") {
				return "int:10", []ssa.Value{x}
			} else if ok && b.Info()&types.IsString != 0 && (format == "%s" || format == "%v") {
				return "copy", []ssa.Value{x}
			} else if format == "%x" {
				return "hex", []ssa.Value{x}
			}
		}
		return "printf:" + format, els
	case "strings.Join":
		return "join:" + constText(a[1]), a[:1]
	case "strings.Split":
		return "join:" + constText(a[1]), a[:1]
	case "github.com/ethereum/go-ethereum/common/hexutil.Encode", "github.com/ethereum/go-ethereum/common/hexutil.Decode",
		"github.com/ethereum/go-ethereum/common/hexutil.MustDecode":
		return "0xhex", a[:1]
	case "encoding/hex.EncodeToString", "encoding/hex.DecodeString":
		return "hex", a[:1]
	case "encoding/base64.EncodeToString", "encoding/base64.DecodeString":
		return "base64:" + constText(a[0]), a[1:2]
	case "github.com/ethereum/go-ethereum/crypto.FromECDSAPub", "github.com/ethereum/go-ethereum/crypto.UnmarshalPubkey":
		return "pubkey", a[:1]
	case "github.com/ethereum/go-ethereum/crypto.CompressPubkey", "github.com/ethereum/go-ethereum/crypto.DecompressPubkey":
		return "compressed pubkey", a[:1]
	case "github.com/ethereum/go-ethereum/crypto/ecies.ImportECDSAPublic", "github.com/ethereum/go-ethereum/crypto/ecies.ExportECDSA":
		return "ecies", a[:1]
	case "github.com/ethereum/go-ethereum/common.HexToAddress":
		return "addrhex", a[:1]
	case "github.com/ethereum/go-ethereum/common.BytesToAddress":
		return "addrbytes", a[:1]
	case "github.com/ethereum/go-ethereum/crypto.Keccak256", "github.com/ethereum/go-ethereum/crypto.Keccak256Hash":
		if es := literalElems(a[0]); len(es) == 1 {
			return "keccak", es
		}
	case "golang.org/x/crypto/sha3.Sum256":
		return "golang.org/x/crypto/sha3.New256 1/1", a[:1]
	case "github.com/ethereum/go-ethereum/crypto.Sign":
		return "sign", a
	case "github.com/ethereum/go-ethereum/crypto.SigToPub", "github.com/ethereum/go-ethereum/crypto.Ecrecover":
		return "recover", a
	case "github.com/ethereum/go-ethereum/crypto.PubkeyToAddress":
		return "address", a
	case "google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Unmarshal":
		return pkg, a[:1]
	case "bytes.Clone", "strings.Clone", "slices.Clone":
		return "copy", a[:1]
	}
	switch {
	case recv == "Address" && (f.Name() == "Hex" || f.Name() == "String"):
		return "addrhex", a[:1]
	case recv == "Address" && f.Name() == "Bytes":
		return "addrbytes", a[:1]
	case recv == "Int" && f.Name() == "Bytes":
		return "bigbytes", a[:1]
	case recv == "Int" && f.Name() == "Uint64":
		return "biguint", a[:1]
	case f.Name() == "NewInt" && pkg == "math/big":
		return "bigint", a[:1]
	case recv != "" && (f.Name() == "Marshal" || f.Name() == "Unmarshal"):
		return "marshal:" + recv, a[:1]
	case recv != "" && f.Name() == "GobEncode":
		return "gob:" + recv, a[:1]
	case recv != "" && f.Name() == "MarshalText":
		return "Text:" + recv, a[:1]
	case recv != "" && len(a) == 1 && strings.HasPrefix(f.Name(), "Get"):
		return "." + strings.TrimPrefix(f.Name(), "Get"), a[:1]
	}
	return "?" + fnName(f), a
}

// literalElems returns what a list literal consists of.
func literalElems(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	p, _ := al.Type().Underlying().(*types.Pointer)
	at, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	r := make([]ssa.Value, at.Len())
	for _, in := range *al.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		i := int(n.Int64())
		for _, q := range *ia.Referrers() {
			switch y := q.(type) {
			case *ssa.Store:
				if y.Addr == ia && i < len(r) {
					r[i] = y.Val
				}
			case *ssa.FieldAddr:
				if i < len(r) && r[i] == nil {
					r[i] = ia // filled in place
				}
			}
		}
	}
	for _, x := range r {
		if x == nil {
			return nil
		}
	}
	return r
}

type tval struct {
	v  ssa.Value
	cx *tctx
}

// elems returns the elements of a list that is built with a fixed number of elements.
func (t *tracer) elems(v ssa.Value, cx *tctx, depth int) ([]tval, bool) {
	if depth > 20 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.ChangeType:
		return t.elems(x.X, cx, depth+1)
	case *ssa.Parameter:
		i := paramIndex(x)
		if cx.args == nil || i >= len(cx.args) {
			return nil, false
		}
		return t.elems(cx.args[i], cx.up, depth+1)
	case *ssa.Slice:
		if es := literalElems(x); es != nil {
			var r []tval
			for _, y := range es {
				r = append(r, tval{y, cx})
			}
			return r, true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if p, ok := al.Type().Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Array); ok && boundText(x.High) == "0" {
					return nil, true
				}
			}
		}
	case *ssa.MakeSlice:
		return nil, constText(x.Len) == "0"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			l, ok1 := t.elems(x.Call.Args[0], cx, depth+1)
			r, ok2 := t.elems(x.Call.Args[1], cx, depth+1)
			return append(l[:len(l):len(l)], r...), ok1 && ok2
		}
		if f := x.Call.StaticCallee(); f != nil && t.e.P.InRepo(f) && isSource(f) {
			n := &tctx{fn: f, args: x.Call.Args, up: cx, n: cx.n + 1}
			if n.args == nil {
				n.args = []ssa.Value{}
			}
			var rets []*ssa.Return
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					rets = append(rets, r)
				}
			}
			if len(rets) == 1 {
				return t.elems(rets[0].Results[0], n, depth+1)
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var st []*ssa.Store
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					st = append(st, s)
				}
			}
			if s, ok := lastStore(st, x); ok && s != nil {
				return t.elems(s.Val, cx, depth+1)
			} else if ok {
				return nil, true
			}
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				if s, ok := lastStore(fieldStores(al, fa.Field), x); ok && s != nil {
					return t.elems(s.Val, cx, depth+1)
				} else if ok {
					for _, r := range *al.Referrers() {
						w, isW := r.(*ssa.Store)
						if !isW || w.Addr != al {
							continue
						}
						u, isU := w.Val.(*ssa.UnOp)
						if !isU {
							return nil, false
						}
						lit, isA := u.X.(*ssa.Alloc)
						if !isA || len(fieldStores(lit, fa.Field)) > 1 {
							return nil, false
						}
						if fs := fieldStores(lit, fa.Field); len(fs) == 1 {
							return t.elems(fs[0].Val, cx, depth+1)
						}
					}
					return nil, true
				}
			}
		}
	}
	return nil, false
}

// hashWrites lists what is written into a hash in the function that makes it, in order.
func hashWrites(h ssa.Value) (string, []ssa.Value) {
	mk, ok := h.(*ssa.Call)
	if !ok || mk.Call.StaticCallee() == nil {
		return "", nil
	}
	var calls []*ssa.Call
	for _, r := range *mk.Referrers() {
		x, ok := r.(*ssa.Call)
		if !ok {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return "", nil
		}
		switch {
		case x.Call.IsInvoke() && x.Call.Value == h && (x.Call.Method.Name() == "Write" || x.Call.Method.Name() == "WriteString"):
			if innermostLoop(x.Block()) != nil {
				return "", nil
			}
			calls = append(calls, x)
		case x.Call.IsInvoke() && x.Call.Value == h && (x.Call.Method.Name() == "Sum" || x.Call.Method.Name() == "Size"):
		default:
			return "", nil
		}
	}
	prec := func(a, b ssa.Instruction) bool {
		return a.Block() == b.Block() && before(a, b) || a.Block() != b.Block() && a.Block().Dominates(b.Block())
	}
	sort.SliceStable(calls, func(i, j int) bool { return prec(calls[i], calls[j]) })
	var vs []ssa.Value
	for i, c := range calls {
		if i > 0 && !prec(calls[i-1], c) {
			return "", nil
		}
		vs = append(vs, c.Call.Args[0])
	}
	return pkgOf(mk.Call.StaticCallee()) + "." + mk.Call.StaticCallee().Name(), vs
}

// parts returns what a byte string is put together from.
func (t *tracer) parts(v ssa.Value, cx *tctx, depth int) []tval {
	if depth < 12 {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return nil
			}
		case *ssa.ChangeType:
			return t.parts(x.X, cx, depth+1)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && t.e.P.InRepo(f) && isSource(f) {
					if r := goodReturn(f); r != nil {
						return t.parts(r.Results[x.Index], &tctx{fn: f, args: c.Call.Args, up: cx, n: cx.n + 1}, depth+1)
					}
				}
			}
		case *ssa.Phi:
			var y ssa.Value
			for _, e := range x.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value == nil {
					continue
				}
				if y != nil && y != e {
					return []tval{{v, cx}}
				}
				y = e
			}
			if y != nil {
				return t.parts(y, cx, depth+1)
			}
		case *ssa.MakeSlice:
			if constText(x.Len) == "0" {
				return nil
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok && boundText(x.High) == "0" && al.Comment == "makeslice" {
				return nil
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return append(t.parts(x.Call.Args[0], cx, depth+1), t.parts(x.Call.Args[1], cx, depth+1)...)
			}
			if f := x.Call.StaticCallee(); f != nil {
				if pkgOf(f) == "bytes" && f.Name() == "Join" && constText(x.Call.Args[1]) == "nil" {
					if es, ok := t.elems(x.Call.Args[0], cx, 0); ok {
						var r []tval
						for _, y := range es {
							r = append(r, t.parts(y.v, y.cx, depth+1)...)
						}
						return r
					}
				}
				if t.e.P.InRepo(f) && isSource(f) {
					if r := goodReturn(f); r != nil {
						return t.parts(r.Results[0], &tctx{fn: f, args: x.Call.Args, up: cx, n: cx.n + 1}, depth+1)
					}
				}
			}
		}
	}
	return []tval{{v, cx}}
}

// goodReturn is the only return of f without an error.
func goodReturn(f *ssa.Function) *ssa.Return {
	var ret *ssa.Return
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		if k, ok := r.Results[0].(*ssa.Const); ok && k.Value == nil && len(r.Results) > 1 {
			continue
		}
		if ret != nil {
			return nil
		}
		ret = r
	}
	return ret
}

// lastStore finds the store that is seen at in; nil if there is none before.
func lastStore(st []*ssa.Store, in ssa.Instruction) (*ssa.Store, bool) {
	var last *ssa.Store
	prec := func(a, b ssa.Instruction) bool {
		return a.Block() == b.Block() && before(a, b) || a.Block() != b.Block() && a.Block().Dominates(b.Block())
	}
	for _, s := range st {
		switch {
		case prec(s, in):
			if last == nil || prec(last, s) {
				last = s
			}
		case prec(in, s) && innermostLoop(in.Block()) == nil:
		default:
			return nil, false
		}
	}
	return last, true
}

func fieldStores(p ssa.Value, field int) []*ssa.Store {
	var r []*ssa.Store
	for _, in := range *p.Referrers() {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok || fa.X != p || fa.Field != field {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
				r = append(r, st)
			}
		}
	}
	return r
}

// inverse: what one chain does is undone by the other.
func inverse(enc, dec []string) bool {
	if len(enc) != len(dec) {
		return false
	}
	for i, x := range enc {
		y := dec[len(dec)-1-i]
		if strings.HasPrefix(x, "num:") && strings.HasPrefix(y, "num:") {
			p, q := strings.Split(x[4:], ">"), strings.Split(y[4:], ">")
			if p[0] == q[1] && p[1] == q[0] {
				continue
			}
			return false
		}
		if x != y || strings.Contains(x, "?") {
			return false
		}
	}
	return true
}
