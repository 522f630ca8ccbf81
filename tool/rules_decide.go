package main

import (
	"go/types"
	"os"
	"strings"
)

// Rules about the keyper's decisions: what must hold on every path on which the decider schedules
// an action.

var (
	dcdr   M = Param(0)
	dState   = Fld(dcdr, "State")
	dShut    = Fld(dcdr, "Shutter")
	dMain    = Fld(dcdr, "MainChain")
	dConf    = Fld(dcdr, "Config")
	self     = Call("crypto.PubkeyToAddress", Fld(Fld(dConf, "SigningKey"), "PublicKey"))
	aDKG     = Idx(Fld(dState, "DKGs"), Any)
	mcCfgs   = Fld(dMain, "BatchConfigs")
)

// act is an action that is scheduled on some path.
type act struct {
	a    *CAlt
	x    *Expr            // the action
	typ  string           // e.g. fx.SendShuttermintMessage
	msg  string           // the kind of shuttermint message, if it is one
	body map[string]*Expr // fields of the message or of the action
}

type actSite struct {
	s    *CSite
	acts []*act
}

func baseType(x *Expr) string {
	if x == nil || x.T == nil {
		return ""
	}
	return typeBase(x.T)
}

// listed returns the elements appended by the value stored to a list field.
func listed(v *Expr, field M) []*Expr {
	if v == nil || !isAppend(v) || len(v.Args) != 2 || v.Args[1].Op != "list" {
		return nil
	}
	var pre []*Expr
	if !field(v.Args[0]) {
		if pre = listed(v.Args[0], field); pre == nil {
			return nil
		}
	}
	return append(pre, v.Args[1].Args...)
}

// actsOf distinguishes the results of the call that produced an action.
func actsOf(e *Engine, a *CAlt, x *Expr, depth int) []*act {
	y := x
	if y.Op == "ext" {
		y = y.Args[0]
	}
	if depth == 0 || y.Op != "call" || y.Fn == nil || !isSource(y.Fn) || !e.P.InRepo(y.Fn) {
		return []*act{actOf(a, x)}
	}
	sum := e.Summary(y.Fn)
	if sum == nil || len(sum.Outs) == 0 {
		return []*act{actOf(a, x)}
	}
	var r []*act
	sb := &subst{m: argMap(y.Args, nil), ctx: "@act"}
	for _, o := range sum.Outs {
		of := o.Facts.subst(sb)
		if of == nil {
			continue
		}
		rs := sb.exprs(o.Results)
		rep := resultRep(y, &Outcome{Results: rs})
		z := (&subst{rep: rep}).expr(x)
		if z.Op == "nil" || z.Key() == x.Key() {
			continue
		}
		b := *a
		if b.Facts = a.Facts.addAll(of); b.Facts == nil {
			continue
		}
		r = append(r, actsOf(e, &b, z, depth-1)...)
	}
	if len(r) == 0 {
		return []*act{actOf(a, x)}
	}
	return r
}

func actOf(a *CAlt, x *Expr) *act {
	r := &act{a: a, x: x, typ: baseType(x), body: structFields(x)}
	if r.typ == "fx.SendShuttermintMessage" {
		r.msg = "?"
		if p := structFields(r.body["Msg"]); p != nil && p["Payload"] != nil {
			t := baseType(p["Payload"])
			if i := strings.LastIndex(t, "_"); i >= 0 {
				r.msg = t[i+1:]
				if f := structFields(p["Payload"]); f != nil {
					r.body = structFields(f[r.msg])
				}
			}
		}
	}
	return r
}

// actions collects all actions scheduled by the decider.
func (c *Ctx) actions(e *Engine) []*actSite {
	root := c.method(e, "shuttermint/keyper.Decider", "Decide")
	var out []*actSite
	c.walk(e, root, nil, func(s *CSite) {
		if s.Kind != "store" || len(s.Alts) == 0 || !Fld(dcdr, "Actions")(s.Alts[0].Target) {
			return
		}
		as := &actSite{s: s}
		for _, a := range s.Alts {
			xs := listed(a.Args[0], Fld(dcdr, "Actions"))
			if xs == nil {
				xs = []*Expr{a.Args[0]}
			}
			for _, x := range xs {
				as.acts = append(as.acts, actsOf(e, a, x, 4)...)
			}
		}
		out = append(out, as)
	})
	return out
}

func (r *act) kind() string {
	if r.msg != "" {
		return r.msg
	}
	return strings.TrimPrefix(r.typ, "fx.")
}

// eachAct checks pred for all scheduled actions of a kind ("" = all).
func (c *Ctx) eachAct(as []*actSite, kind, rule string, pred func(r *act) bool, msg string) {
	for _, s := range as {
		n := 0
		var bad *act
		e := c.engineOf(s.s)
		for _, r := range s.acts {
			if kind != "" && r.kind() != kind {
				continue
			}
			n++
			if bad == nil && !c.holds(e, r.a, func(a *CAlt) bool { q := *r; q.a = a; return pred(&q) }) {
				bad = r
			}
		}
		if n == 0 {
			continue
		}
		k := s.acts[0].kind()
		if kind != "" {
			k = kind
		}
		if bad != nil {
			c.must(false, rule, k+" scheduled at "+s.s.where(e.P), msg+"; known on a violating path:\n        "+short(bad.x)+"\n        "+shortFacts(bad.a.Facts, os.Getenv("VTDID") != ""))
		} else {
			c.must(true, rule, k+" scheduled at "+s.s.where(e.P), "")
		}
	}
}

func (r *act) is(f string, m M) bool {
	x := r.body[f]
	return x != nil && (m(x) || m(strip(x)) || r.a.Facts.matchUpTo(x, m))
}

func (r *act) val(f string) M {
	if x := r.body[f]; x != nil {
		return Strip(Is(strip(x)))
	}
	return func(*Expr) bool { return false }
}

func constTrue(e *Expr) bool { return K("true")(e) }

// memberOf: x is one of the keypers of a config in the list.
func memberIn(f *Facts, cfgs, x M) bool { return f.Eq(Idx(Fld(cfgs, "Keypers"), Any), x) }

func typeOf(t types.Type) string { return typeBase(t) }
