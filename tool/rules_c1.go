package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about encodings: events, messages, signatures, stored objects.

func init() {
	register(&Check{ID: "C33", Mods: []string{"shuttermint"},
		Rule: "For every kind of event, each field that is decoded comes from exactly the attribute (position) into which the same field is encoded, through the inverse conversions in reverse order; the names checked are the names written; the type written selects the decoder that makes this kind of event and all types differ; the height is the one given; lists are encoded and decoded without leaving out elements; an event is returned only if every conversion succeeded.",
		Min:  map[string]int{"field": 28, "names": 9, "type": 9, "height": 9, "elements": 3, "errors": 10, "empty": 1},
		Run:  checkC33})
	register(&Check{ID: "C34", Mods: []string{"shuttermint"},
		Rule: "For every kind of message, each field of the event or config that the chain makes of it comes from exactly the message field into which the constructor encodes the argument of the same name, through the inverse conversions; constructors fill the payload of their kind; lists are converted without leaving out elements, into elements of their own; bytes become an address only if there are exactly 20; a message is accepted only if every conversion succeeded.",
		Min:  map[string]int{"field": 20, "constructor": 20, "elements": 4, "errors": 5},
		Run:  checkC34})
	register(&Check{ID: "C35", Mods: []string{"shuttermint"},
		Rule: "A signed message is the signature followed by the encoded message; the signature is made with the key given over a hash of a fixed prefix and exactly these encoded bytes. The signer is recovered from the first 65 bytes and the same hash over the same prefix and all remaining bytes, the message is decoded from exactly the remaining bytes, and both from the same input, which is decoded the way the sender encodes it. Bytes beyond the end are not accessed and errors are reported.",
		Min:  map[string]int{"signature": 4, "signer": 3, "message": 2, "transport": 2, "length": 2, "errors": 6},
		Run:  checkC35})
}

func chainStrings(cs []cchain) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.String())
	}
	return strings.Join(s, " | ")
}

// globalString returns the text of a string constant or of a global variable that is only set once.
func globalString(e *Engine, src string) string {
	if strings.HasPrefix(src, "const:") {
		return src[6:]
	}
	if !strings.HasPrefix(src, "global:") {
		return "?" + src
	}
	name := src[7:]
	var vals []string
	for _, p := range e.P.Prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || g.Pkg.Pkg.Name()+"."+g.Name() != name || !e.P.InRepoPkg(p.Pkg) {
				continue
			}
			fns := e.P.Functions()
			seen := map[ssa.Instruction]bool{}
			if init := p.Func("init"); init != nil {
				fns = append(append([]*ssa.Function{}, fns...), init)
			}
			for _, f := range fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g && !seen[in] {
							seen[in] = true
							vals = append(vals, constText(st.Val))
						}
					}
				}
			}
		}
	}
	if len(vals) != 1 {
		return "?" + src
	}
	return vals[0]
}

// reachable returns the repository functions that are called from f.
func reachable(e *Engine, root *ssa.Function, stop func(*ssa.Function) bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !isSource(f) || !e.P.InRepo(f) || len(f.Blocks) == 0 || stop != nil && stop(f) {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					for _, g := range e.P.Callees(x.Common()) {
						walk(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(root)
	return r
}

// wholeLists: every loop in f that makes elements of a list makes one in each iteration, and the loop
// ends only with the list or with an error.
func (c *Ctx) wholeLists(e *Engine, f *ssa.Function, rule string) {
	c.fns[f] = true
	heads := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				heads[s] = true
			}
		}
	}
	for h := range heads {
		body := loopBody(h)
		// does the loop make elements?
		var makes []*ssa.BasicBlock
		for b := range body {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						makes = append(makes, b)
					}
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.IndexAddr); ok {
						makes = append(makes, b)
					}
				case *ssa.MapUpdate:
					makes = append(makes, b)
				}
			}
		}
		if len(makes) == 0 {
			continue
		}
		ok := true
		for b := range body {
			for _, s := range b.Succs {
				if s == h {
					// at least one element is made on the way
					done := false
					for _, m := range makes {
						if m.Dominates(b) {
							done = true
						}
					}
					ok = ok && done
				}
				if !body[s] && b != h && !endsWithError(s, map[*ssa.BasicBlock]bool{}) {
					ok = false
				}
			}
		}
		// a loop with an index starts at 0 and takes steps of 1
		for _, in := range h.Instrs {
			phi, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			b, isB := phi.Type().Underlying().(*types.Basic)
			if !isB || b.Info()&types.IsInteger == 0 || !usedAsIndex(phi) {
				continue
			}
			for i, v := range phi.Edges {
				if body[h.Preds[i]] {
					bo, isBo := v.(*ssa.BinOp)
					ok = ok && isBo && bo.Op == token.ADD && bo.X == phi && constText(bo.Y) == "1"
				} else {
					k := constText(v)
					ok = ok && (k == "0" || k == "-1")
				}
			}
		}
		c.must(ok, rule, fnName(f)+" loop at "+e.P.pos(h.Instrs[len(h.Instrs)-1]), "an element of the list may be left out")
	}
}

func usedAsIndex(phi *ssa.Phi) bool {
	for _, r := range *phi.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr, *ssa.Index:
			return true
		case *ssa.BinOp:
			for _, q := range *x.Referrers() {
				switch q.(type) {
				case *ssa.IndexAddr, *ssa.Index:
					return true
				}
			}
		}
	}
	return false
}

func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			add(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			add(p)
		}
	}
	return body
}

// endsWithError: from b on, the function returns with an error or panics.
func endsWithError(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		if len(x.Results) == 0 {
			return false
		}
		r := x.Results[len(x.Results)-1]
		if !isErrorType(r.Type()) {
			return false
		}
		k, ok := r.(*ssa.Const)
		return !(ok && k.Value == nil)
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !endsWithError(s, seen) {
			return false
		}
	}
	return true
}

// errorsSeen: f returns without an error only if none of the conversions it calls failed.
func (c *Ctx) errorsSeen(e *Engine, f *ssa.Function, rule string) {
	c.fns[f] = true
	res := f.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			rs := call.Call.Signature().Results()
			if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) || makesErrors(call) {
				continue
			}
			if call.Call.IsInvoke() && call.Call.Method.Name() == "Write" {
				continue
			}
			// the error is looked at, and where it is not nil the function does not go on
			var ev ssa.Value
			if rs.Len() == 1 {
				ev = call
			} else {
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == rs.Len()-1 {
						ev = x
					}
				}
			}
			c.must(ev != nil && errorEnds(ev, map[ssa.Value]bool{}), rule, fnName(f)+" "+e.P.pos(in), "the error of a conversion is not looked at")
		}
	}
}

func makesErrors(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	p := pkgOf(f)
	return p == "errors" || p == "github.com/pkg/errors" || p == "fmt"
}

// errorEnds: the error is returned, or tested, and if it is not nil an error is returned.
func errorEnds(ev ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[ev] {
		return false
	}
	seen[ev] = true
	rs := ev.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.Return:
			if x.Results[len(x.Results)-1] == ev {
				return true
			}
		case *ssa.Phi:
			if errorEnds(x, seen) {
				return true
			}
		case *ssa.Store:
			// a named result or captured variable
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, q := range *al.Referrers() {
					if u, ok := q.(*ssa.UnOp); ok && errorEnds(u, seen) {
						return true
					}
				}
			}
		case *ssa.Call:
			// wrapped: nil stays nil
			if f := x.Call.StaticCallee(); f != nil && pkgOf(f) == "github.com/pkg/errors" && strings.HasPrefix(f.Name(), "W") && errorEnds(x, seen) {
				return true
			}
		case *ssa.BinOp:
			for _, q := range *x.Referrers() {
				iff, ok := q.(*ssa.If)
				if !ok {
					continue
				}
				bad := iff.Block().Succs[0]
				if x.Op == token.EQL {
					bad = iff.Block().Succs[1]
				}
				if endsWithError(bad, map[*ssa.BasicBlock]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func checkC33(c *Ctx) {
	e := c.shm()
	makeEvent := c.Func(e, "shuttermint/keyper/shutterevents.MakeEvent")
	if makeEvent == nil {
		return
	}
	iev, _ := makeEvent.Signature.Results().At(0).Type().Underlying().(*types.Interface)
	if iev == nil {
		c.must(false, "type", fnName(makeEvent), "no event interface")
		return
	}
	pkg := makeEvent.Pkg
	var kinds []*types.Named
	for _, m := range pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			if n, ok := t.Type().(*types.Named); ok && !types.IsInterface(n) && (types.Implements(n, iev) || types.Implements(types.NewPointer(n), iev)) {
				kinds = append(kinds, n)
			}
		}
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i].Obj().Name() < kinds[j].Obj().Name() })
	c.must(len(kinds) >= 9, "type", "event types", "event types are missing")
	isKind := func(t types.Type) *types.Named {
		if n := named(t); n != nil {
			for _, k := range kinds {
				if n.Obj() == k.Obj() {
					return n
				}
			}
		}
		return nil
	}
	tr := newTracer(e)
	typeOf := map[string]string{} // text of the type → event type
	texts := map[string]string{}
	keysOf := map[string][]string{}
	var encoders []*ssa.Function
	for _, k := range kinds {
		name := k.Obj().Name()
		enc := e.P.Func("(shuttermint/keyper/shutterevents." + name + ").MakeABCIEvent")
		if enc == nil {
			enc = e.P.Func("(*shuttermint/keyper/shutterevents." + name + ").MakeABCIEvent")
		}
		if enc == nil {
			c.must(false, "type", name, "no encoder")
			continue
		}
		encoders = append(encoders, enc)
		tr.prune = nil
		var ret ssa.Value
		n := 0
		for _, b := range enc.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				ret = r.Results[0]
				n++
			}
		}
		if n != 1 {
			c.must(false, "type", fnName(enc), "more than one result")
			continue
		}
		// the type
		ts := tr.chains(ret, ".Type")
		text := "?"
		if len(ts) == 1 && len(ts[0].ops) == 0 {
			text = globalString(e, ts[0].src)
		}
		c.must(text != "" && text[0] != '?' && typeOf[text] == "", "type", name+" encoded", "the type of the event is unknown or used for two kinds of events: "+chainStrings(ts))
		typeOf[text] = name
		texts[name] = text
		// the attributes
		encoded := map[string]struct {
			field string
			ops   []string
		}{}
		var keys []string
		for i := 0; i < 64; i++ {
			ks := tr.attr(ret, i, ".Key")
			vs := tr.attr(ret, i, ".Value")
			if len(ks) == 0 && len(vs) == 0 {
				break
			}
			key := "?"
			if len(ks) == 1 && strings.HasPrefix(ks[0].src, "const:") && len(ks[0].ops) == 0 {
				key = ks[0].src[6:]
			} else if len(ks) == 1 && len(ks[0].ops) == 0 {
				key = globalString(e, ks[0].src)
			}
			keys = append(keys, key)
			vs = noConst(vs)
			if len(vs) == 1 && strings.HasPrefix(vs[0].src, "p0.") {
				encoded[strconv.Itoa(i)] = struct {
					field string
					ops   []string
				}{vs[0].src[3:], vs[0].ops}
			} else {
				c.must(false, "field", fmt.Sprintf("%s attribute %d", name, i), "the attribute is not made of one field: "+chainStrings(vs))
			}
		}
		keysOf[name] = keys
		// the decoder
		tr.prune = func(t types.Type) bool { n := isKind(t); return n != nil && n.Obj() != k.Obj() }
		st, _ := k.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			fn := st.Field(i).Name()
			var cs []cchain
			set := map[string]bool{}
			for _, b := range makeEvent.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, x := range tr.chains(r.Results[0], "."+fn) {
						if !set[x.String()] {
							set[x.String()] = true
							cs = append(cs, x)
						}
					}
				}
			}
			cs = noConst(cs)
			if fn == "Height" {
				c.must(len(cs) == 1 && cs[0].src == "p1" && len(cs[0].ops) == 0, "height", name, "the height is not the one of the block: "+chainStrings(cs))
				continue
			}
			if len(cs) == 0 {
				continue // not part of the event
			}
			ok := len(cs) == 1
			detail := "decoded from " + chainStrings(cs)
			if ok {
				pos := ""
				if strings.HasPrefix(cs[0].src, "p0.Attributes#") && strings.HasSuffix(cs[0].src, ".Value") {
					pos = strings.TrimSuffix(strings.TrimPrefix(cs[0].src, "p0.Attributes#"), ".Value")
				}
				en, has := encoded[pos]
				ok = has && en.field == fn && inverse(en.ops, cs[0].ops)
				detail += "; encoded from " + en.field + " " + strings.Join(en.ops, "<-")
			}
			c.must(ok, "field", name+"."+fn, "the field is not decoded from what it is encoded into: "+detail)
		}
	}
	// names that are checked
	decoders := reachable(e, makeEvent, nil)
	for _, f := range decoders {
		var kind *types.Named
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if k := isKind(f.Signature.Results().At(i).Type()); k != nil {
				kind = k
			}
		}
		if kind == nil {
			continue
		}
		keys := keysOf[kind.Obj().Name()]
		checked := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range call.Call.Args {
					if s, ok := a.Type().Underlying().(*types.Slice); !ok || !isString(s.Elem()) {
						continue
					}
					es, ok := tr.elems(a, &tctx{}, 0)
					if !ok || len(es) == 0 {
						continue
					}
					good := len(es) <= len(keys)
					for i, x := range es {
						good = good && i < len(keys) && constText(x.v) == keys[i]
					}
					checked++
					c.must(good, "names", kind.Obj().Name(), fmt.Sprintf("the names expected are not those written: %v", keys))
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isString(bo.X.Type()) {
					continue
				}
				x, y := tr.chains(bo.X), tr.chains(bo.Y)
				if len(x) != 1 || len(y) != 1 {
					continue
				}
				if strings.HasPrefix(x[0].src, "const:") {
					x, y = y, x
				}
				if i := strings.Index(x[0].src, ".Attributes#"); i >= 0 && strings.HasSuffix(x[0].src, ".Key") && strings.HasPrefix(y[0].src, "const:") {
					n, _ := strconv.Atoi(strings.TrimSuffix(x[0].src[i+12:], ".Key"))
					checked++
					c.must(n < len(keys) && keys[n] == y[0].src[6:], "names", kind.Obj().Name(), "the name expected is not the one written")
				}
			}
		}
		if checked == 0 {
			c.must(true, "names", kind.Obj().Name(), "")
		}
	}
	// the kind of event is selected by the type
	c.returns(e, makeEvent, "type", func(a *CAlt) bool {
		r := a.Args[0]
		if Nil(r) || a.Facts.IsNil(Is(r)) || a.Facts.NonNil(Is(a.Args[1])) && !Nil(a.Args[1]) || nonNilExpr(a.Args[1]) {
			return true
		}
		for r.Op == "iface" || r.Op == "conv" {
			r = r.Args[0]
		}
		k := isKind(r.T)
		if k == nil {
			return false
		}
		want := texts[k.Obj().Name()]
		return a.Facts.Eq(Fld(Param(0), "Type"), func(x *Expr) bool {
			return globalString(e, exprSource(x)) == want
		})
	}, "an event is decoded as another kind than the one it was encoded as")
	for _, k := range kinds {
		c.must(texts[k.Obj().Name()] != "", "type", k.Obj().Name(), "no type")
	}
	// an empty list is written as the empty string, which does not consist of one element
	c.walk(e, makeEvent, nil, func(s *CSite) {
		if s.Kind == "call" && nameEnds(s.Name, "strings.Split") {
			c.each(s, "empty", func(a *CAlt) bool {
				same := func(x *Expr) bool { return strip(x).Key() == strip(a.Args[0]).Key() }
				return a.Facts.Ne(same, func(x *Expr) bool { return x.Op == "const" && (x.S == `""` || x.S == "") }) || a.Facts.Ne(Len(same), Num(0)) || a.Facts.Lt(Num(0), Len(same))
			}, "an empty list is not decoded as such")
		}
	})
	// lists and errors
	done := map[*ssa.Function]bool{}
	for _, root := range append(encoders, makeEvent) {
		for _, f := range reachable(e, root, func(f *ssa.Function) bool { return f.Pkg != pkg && f.Name() != "init" }) {
			if !done[f] {
				done[f] = true
				c.wholeLists(e, f, "elements")
				c.errorsSeen(e, f, "errors")
			}
		}
	}
}

func noConst(cs []cchain) []cchain {
	var r []cchain
	for _, x := range cs {
		if strings.HasPrefix(x.src, "const:zero") || x.src == "const:" {
			continue
		}
		r = append(r, x)
	}
	return r
}

func exprSource(x *Expr) string {
	x = strip(x)
	switch x.Op {
	case "const":
		s := x.S
		if u, err := strconv.Unquote(s); err == nil {
			s = u
		}
		return "const:" + s
	case "global":
		if i := strings.LastIndex(x.S, "/"); i >= 0 {
			return "global:" + x.S[i+1:]
		}
		return "global:" + x.S
	}
	return "?"
}

// attr traces attribute i of an event.
func (t *tracer) attr(ret ssa.Value, i int, sel string) []cchain {
	v, cx := t.fieldValue(ret, "Attributes", &tctx{}, 0)
	if v == nil {
		return nil
	}
	es, ok := t.elems(v, cx, 0)
	if !ok {
		if i == 0 {
			return []cchain{{src: "?"}, {src: "?elements"}}
		}
		return nil
	}
	if i >= len(es) {
		return nil
	}
	return t.chainsIn(es[i].v, es[i].cx, sel)
}

// fieldValue finds the value that is stored into a field of the struct v.
func (t *tracer) fieldValue(v ssa.Value, field string, cx *tctx, depth int) (ssa.Value, *tctx) {
	if depth > 12 {
		return nil, nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return t.fieldValue(x.X, field, cx, depth+1)
		}
	case *ssa.Alloc:
		var vals []*ssa.Store
		for _, in := range *x.Referrers() {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldNameAt(x.Type(), fa.Field) == field {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
						vals = append(vals, st)
					}
				}
			}
		}
		for _, in := range *x.Referrers() {
			if st, ok := in.(*ssa.Store); ok && st.Addr == x && len(vals) == 0 {
				return t.fieldValue(st.Val, field, cx, depth+1)
			}
		}
		if len(vals) > 0 {
			last := vals[0]
			for _, v := range vals[1:] {
				switch {
				case v.Block() == last.Block() && before(last, v), v.Block() != last.Block() && last.Block().Dominates(v.Block()):
					last = v
				case v.Block() == last.Block(), v.Block().Dominates(last.Block()):
				default:
					return nil, nil
				}
			}
			return last.Val, cx
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && t.e.P.InRepo(f) && isSource(f) {
			n := &tctx{fn: f, args: x.Call.Args, up: cx, n: cx.n + 1}
			if n.args == nil {
				n.args = []ssa.Value{}
			}
			var rets []*ssa.Return
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					rets = append(rets, r)
				}
			}
			if len(rets) == 1 {
				return t.fieldValue(rets[0].Results[0], field, n, depth+1)
			}
		}
	case *ssa.Parameter:
		if i := paramIndex(x); cx.args != nil && i < len(cx.args) {
			return t.fieldValue(cx.args[i], field, cx.up, depth+1)
		}
	}
	return nil, nil
}

// nameScore: how well two names fit together.
func nameScore(a, b string) int {
	n := func(s string) string { return strings.TrimSuffix(strings.ToLower(s), "s") }
	a, b = n(a), n(b)
	if a == b {
		return 3
	}
	sub := func(a, b string) bool {
		i := 0
		for j := 0; j < len(b) && i < len(a); j++ {
			if a[i] == b[j] {
				i++
			}
		}
		return i == len(a)
	}
	if strings.Contains(a, b) || strings.Contains(b, a) {
		return 2
	}
	if sub(a, b) || sub(b, a) {
		return 1
	}
	return 0
}

func checkC34(c *Ctx) {
	e := c.shm()
	shmsg := e.P.Pkg("shuttermint/shmsg")
	events := e.P.Pkg("shuttermint/keyper/shutterevents")
	if shmsg == nil || events == nil {
		c.must(false, "field", "packages", "missing")
		return
	}
	tr := newTracer(e)
	// kinds of payload
	type kind struct {
		wrapper, payload *types.Named
		field            string
	}
	var kinds []kind
	for _, m := range shmsg.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		n, _ := t.Type().(*types.Named)
		if n == nil || !strings.HasPrefix(n.Obj().Name(), "Message_") {
			continue
		}
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 1 {
			if p := named(st.Field(0).Type()); p != nil {
				kinds = append(kinds, kind{n, p, st.Field(0).Name()})
			}
		}
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i].field < kinds[j].field })
	// constructors
	type encoding struct {
		param *ssa.Parameter
		ops   []string
	}
	enc := map[string]map[string]encoding{}
	lists := map[*ssa.Function]bool{}
	for _, k := range kinds {
		enc[k.field] = map[string]encoding{}
		st, _ := k.payload.Underlying().(*types.Struct)
		tr.prune = func(t types.Type) bool {
			n := named(t)
			return n != nil && strings.HasPrefix(n.Obj().Name(), "Message_") && n.Obj() != k.wrapper.Obj()
		}
		made := 0
		for _, f := range e.P.Functions() {
			if f.Pkg != shmsg || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
				continue
			}
			if n := named(f.Signature.Results().At(0).Type()); n == nil || n.Obj().Name() != "Message" {
				continue
			}
			if !strings.HasPrefix(f.Name(), "New") || !makesType(e, f, k.wrapper) {
				continue
			}
			made++
			c.must(made == 1, "constructor", fnName(f), "two constructors for one kind of message")
			for _, g := range reachable(e, f, func(g *ssa.Function) bool { return g.Pkg != shmsg }) {
				lists[g] = true
			}
			used := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				fn := st.Field(i).Name()
				if !st.Field(i).Exported() {
					continue
				}
				var cs []cchain
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						cs = append(cs, tr.chains(r.Results[0], ".Payload", "."+k.field, "."+fn)...)
					}
				}
				cs = noConst(cs)
				ok := len(cs) == 1 && strings.HasPrefix(cs[0].src, "p")
				n := -1
				if ok {
					var err error
					n, err = strconv.Atoi(cs[0].src[1:])
					ok = err == nil && n < len(f.Params) && used[cs[0].src] == ""
					used[cs[0].src] = fn
				}
				if ok {
					// no other field of this type fits better
					own := nameScore(f.Params[n].Name(), fn)
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Exported() && types.Identical(st.Field(j).Type(), st.Field(i).Type()) && nameScore(f.Params[n].Name(), st.Field(j).Name()) > own {
							ok = false
						}
					}
					enc[k.field][fn] = encoding{f.Params[n], cs[0].ops}
				}
				c.must(ok, "constructor", fnName(f)+" "+fn, "the field does not hold the argument of this name: "+chainStrings(cs))
			}
		}
		c.must(made == 1, "constructor", k.field, "no constructor for this kind of message")
	}
	tr.prune = nil
	// what the chain makes of the messages
	for _, k := range kinds {
		for _, f := range e.P.Functions() {
			if (!inPkg(f, "shuttermint/app") && f.Pkg != events) || f.Parent() != nil {
				continue
			}
			at := -1
			for i, p := range f.Params {
				if n := named(p.Type()); n != nil && n.Obj() == k.payload.Obj() {
					at = i
				}
			}
			if at < 0 {
				continue
			}
			root := "p" + strconv.Itoa(at) + "."
			var visit func(g *ssa.Function, cx *tctx)
			visit = func(g *ssa.Function, cx *tctx) {
				fromMsg := false
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Store:
							fa, ok := x.Addr.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							n := named(fa.X.Type())
							if n == nil || n.Obj().Pkg() != events.Pkg {
								continue
							}
							G := fieldNameAt(fa.X.Type(), fa.Field)
							cs := noConst(tr.chainsIn(x.Val, cx))
							for _, ch := range cs {
								if !strings.HasPrefix(ch.src, root) {
									continue
								}
								fromMsg = true
								F := ch.src[len(root):]
								en, has := enc[k.field][F]
								ok := has && len(cs) == 1 && inverse(en.ops, ch.ops)
								if ok {
									own := nameScore(en.param.Name(), G)
									st, _ := n.Underlying().(*types.Struct)
									for j := 0; j < st.NumFields(); j++ {
										if types.Identical(st.Field(j).Type(), st.Field(fa.Field).Type()) && nameScore(en.param.Name(), st.Field(j).Name()) > own {
											ok = false
										}
									}
								}
								c.must(ok, "field", k.field+" "+n.Obj().Name()+"."+G, "not what the sender put in: "+chainStrings(cs)+"; encoded as "+strings.Join(en.ops, "<-"))
							}
						case *ssa.Call:
							h := x.Call.StaticCallee()
							if h == nil || cx.n > 3 || !(inPkg(h, "shuttermint/app") || h.Pkg == events) || !isSource(h) {
								continue
							}
							visit(h, &tctx{fn: h, args: x.Call.Args, up: cx, n: cx.n + 1})
						}
					}
				}
				if fromMsg && !lists[g] {
					lists[g] = true
				}
			}
			c.fns[f] = true
			visit(f, &tctx{fn: f})
		}
	}
	for _, f := range e.P.Functions() {
		if !inPkg(f, "shuttermint/app") && f.Pkg != events {
			continue
		}
		for _, st := range e.Summary(f).Sites {
			if st.Kind == "call" && nameEnds(st.Name, "common.BytesToAddress") {
				for _, a := range st.Alts {
					c.must(a.Facts.Eq(Len(Is(a.Args[0])), Num(20)), "malformed", e.P.pos(st.In), "bytes that are not as long as an address are taken for one")
				}
			}
		}
	}
	for f := range lists {
		c.freshElements(e, f)
		c.wholeLists(e, f, "elements")
		if f.Pkg != shmsg {
			c.errorsSeen(e, f, "errors")
		}
	}
}

// freshElements: the elements of a list that is filled in a loop do not share their memory.
func (c *Ctx) freshElements(e *Engine, f *ssa.Function) {
	for _, b := range f.Blocks {
		l := innermostLoop(b)
		if l == nil {
			continue
		}
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				continue
			}
			v := st.Val
			for {
				switch x := v.(type) {
				case *ssa.ChangeType:
					v = x.X
					continue
				case *ssa.Slice:
					v = x.X
					continue
				case *ssa.MakeInterface:
					v = x.X
					continue
				}
				break
			}
			switch x := v.(type) {
			case *ssa.Alloc:
				c.must(innermostLoop(x.Block()) == l, "elements", e.P.pos(in), "all elements of the list are the same object")
			case *ssa.MakeSlice:
				c.must(innermostLoop(x.Block()) == l, "elements", e.P.pos(in), "all elements of the list are the same object")
			}
		}
	}
}

// makesType: f or a function it calls makes an object of this type.
func makesType(e *Engine, f *ssa.Function, n *types.Named) bool {
	for _, g := range reachable(e, f, func(g *ssa.Function) bool { return g.Pkg != f.Pkg }) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					if m := named(a.Type()); m != nil && m.Obj() == n.Obj() {
						return true
					}
				}
			}
		}
	}
	return false
}

// byOp groups the chains of a value by their first conversion.
func hashed(cs []cchain, skip int) map[string]string {
	r := map[string]string{}
	for _, x := range cs {
		if len(x.ops) <= skip {
			return nil
		}
		k := x.ops[skip]
		v := x.src + " " + strings.Join(x.ops[skip+1:], "<-")
		if r[k] != "" && r[k] != v {
			return nil
		}
		r[k] = v
	}
	return r
}

func checkC35(c *Ctx) {
	e := c.shm()
	sign := c.Func(e, "shuttermint/shmsg.SignMessage")
	signer := c.Func(e, "shuttermint/shmsg.GetSigner")
	message := c.Func(e, "shuttermint/shmsg.GetMessage")
	decode := c.method(e, "shuttermint/app.ShutterApp", "decodeTx")
	if sign == nil || signer == nil || message == nil || decode == nil {
		return
	}
	tr := newTracer(e)
	// hash inputs relative to the encoded message
	var signHash map[string]string
	proto := "p0 google.golang.org/protobuf/proto"
	if r := goodReturn(sign); c.must(r != nil, "signature", fnName(sign), "no single result") {
		ps := tr.parts(r.Results[0], &tctx{}, 0)
		ok := len(ps) == 2
		if ok {
			m := tr.chainsIn(ps[1].v, ps[1].cx)
			c.must(len(m) == 1 && m[0].String() == proto, "signature", fnName(sign)+" message", "what follows the signature is not the encoded message: "+chainStrings(m))
			s := tr.chainsIn(ps[0].v, ps[0].cx)
			var key, hash []cchain
			for _, x := range s {
				if len(x.ops) == 1 {
					key = append(key, x)
				} else {
					hash = append(hash, x)
				}
				ok = ok && len(x.ops) > 0 && x.ops[0] == "sign"
			}
			c.must(len(key) == 1 && key[0].src == "p1", "signature", fnName(sign)+" key", "not signed with the key: "+chainStrings(key))
			signHash = hashed(hash, 1)
		}
		c.must(ok, "signature", fnName(sign)+" parts", "a signed message is not the signature followed by the message")
	}
	over := false
	for _, v := range signHash {
		over = over || v == proto
	}
	c.must(over, "signature", fnName(sign)+" hash", fmt.Sprintf("the signature is not over the encoded message: %v", signHash))
	if r := goodReturn(signer); true {
		var rets []ssa.Value
		if r != nil {
			rets = append(rets, r.Results[0])
		} else {
			for _, b := range signer.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					rets = append(rets, r.Results[0])
				}
			}
		}
		set := map[string]cchain{}
		for _, v := range rets {
			for _, x := range noConst(tr.chains(v)) {
				set[x.String()] = x
			}
		}
		var cs, hash []cchain
		sig := 0
		ok := len(set) > 0
		for _, x := range set {
			cs = append(cs, x)
			if len(x.ops) < 2 || x.ops[0] != "address" || x.ops[1] != "recover" {
				ok = false
				continue
			}
			if len(x.ops) == 3 && x.ops[2] == "[:65]" && x.src == "p0" {
				sig++
			} else {
				hash = append(hash, x)
			}
		}
		c.must(ok, "signer", fnName(signer), "the signer is not the address recovered from the signature: "+chainStrings(cs))
		c.must(sig == 1, "signer", fnName(signer)+" signature", "the signature is not the first 65 bytes: "+chainStrings(cs))
		got := hashed(hash, 2)
		same := len(got) == len(signHash) && len(got) > 0
		for k, v := range signHash {
			w := got[k]
			same = same && (w == v && v != proto || v == proto && w == "p0 [65:]")
		}
		c.must(same, "signer", fnName(signer)+" hash", fmt.Sprintf("signed: %v recovered: %v", signHash, got))
	}
	// the prefix is never changed
	for _, v := range signHash {
		if !strings.HasPrefix(v, "global:") {
			continue
		}
		name := strings.TrimSuffix(v[7:], " ")
		for _, f := range e.P.Functions() {
			if f.Name() == "init" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || g.Pkg.Pkg.Name()+"."+g.Name() != name {
							continue
						}
						u, isLoad := in.(*ssa.UnOp)
						good := isLoad && u.Op == token.MUL
						if good {
							for _, r := range *u.Referrers() {
								call, isCall := r.(*ssa.Call)
								good = good && isCall && (call.Call.IsInvoke() || call.Call.StaticCallee() != nil)
							}
						}
						c.must(good, "signature", name+" at "+e.P.pos(in), "the prefix may be changed")
					}
				}
			}
		}
	}
	for _, b := range message.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		cs := tr.chains(r.Results[0])
		k, isConst := r.Results[0].(*ssa.Const)
		c.must(isConst && k.Value == nil || len(cs) == 1 && cs[0].src == "p0" && len(cs[0].ops) == 2 && cs[0].ops[0] == "google.golang.org/protobuf/proto" && cs[0].ops[1] == "[65:]",
			"message", fnName(message)+" "+e.P.pos(r), "the message is not decoded from what follows the signature: "+chainStrings(cs))
	}
	want := named(message.Signature.Results().At(0).Type())
	// what is signed is of the kind that is decoded, and is sent the way it is read
	sent := map[string]bool{}
	for _, f := range e.P.Functions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if call.Call.StaticCallee() == sign && f != sign {
					n := named(stripIface(call.Call.Args[0]).Type())
					c.must(n != nil && want != nil && n.Obj() == want.Obj(), "message", "signed at "+e.P.pos(in), "another kind of message is signed than the one that is decoded")
				}
				if call.Call.IsInvoke() && strings.HasPrefix(call.Call.Method.Name(), "BroadcastTx") && len(call.Call.Args) == 2 {
					tr.opaque = map[*ssa.Function]bool{sign: true}
					for _, x := range tr.chains(call.Call.Args[1]) {
						for i, op := range x.ops {
							if op == "?"+fnName(sign) {
								sent[strings.Join(x.ops[:i], "<-")] = true
							}
						}
					}
					tr.opaque = nil
				}
			}
		}
	}
	var how []string
	for s := range sent {
		how = append(how, s)
	}
	c.must(len(how) == 1 && how[0] != "", "transport", "sending", fmt.Sprintf("signed messages are sent in different or unknown ways: %v", how))
	for _, g := range []*ssa.Function{signer, message} {
		for _, f := range reachable(e, decode, nil) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != g {
						continue
					}
					cs := tr.chains(call.Call.Args[0])
					good := len(cs) == 1 && len(how) == 1 && strings.Join(cs[0].ops, "<-") == how[0] && strings.HasPrefix(cs[0].src, "p") && (f != decode || cs[0].src == "p1")
					c.must(good, "transport", fnName(f)+" "+g.Name(), "read in another way than sent: "+chainStrings(cs)+fmt.Sprintf(" sent: %v", how))
				}
			}
		}
	}
	c.walk(e, decode, nil, func(s *CSite) {
		if s.Kind != "call" {
			return
		}
		if f := s.Callee; f == nil || (f.Name() != "SigToPub" && f.Name() != "Unmarshal" && f.Name() != "Ecrecover") {
			return
		}
		c.each(s, "length", func(a *CAlt) bool {
			ok := true
			for _, x := range a.Args {
				walkExpr(x, func(y *Expr) bool {
					if y.Op == "slice" && len(y.Args) >= 3 {
						ok = ok && (a.Facts.Le(Num(65), Len(Is(y.Args[0]))) || a.Facts.Lt(Num(64), Len(Is(y.Args[0]))))
					}
					return true
				})
			}
			return ok
		}, "the message may be too short")
	})
	for _, f := range []*ssa.Function{sign, signer, message, decode} {
		for _, g := range reachable(e, f, nil) {
			c.errorsSeen(e, g, "errors")
		}
	}
}
