package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// short renders expressions readably for diagnostics.
func short(e *Expr) string {
	if e == nil {
		return "-"
	}
	if isSender(e) {
		return "«sender»"
	}
	sh := func(as []*Expr) string {
		ks := make([]string, len(as))
		for i, a := range as {
			ks[i] = short(a)
		}
		return strings.Join(ks, ", ")
	}
	last := func(s string) string {
		if i := strings.LastIndex(s, "/"); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch e.Op {
	case "field":
		return short(e.Args[0]) + "." + e.S
	case "index":
		return short(e.Args[0]) + "[" + short(e.Args[1]) + "]"
	case "bin":
		return "(" + short(e.Args[0]) + e.S + short(e.Args[1]) + ")"
	case "call":
		return last(e.S) + "(" + sh(e.Args) + ")"
	case "ext":
		return short(e.Args[0]) + "#" + e.S
	case "func", "closure":
		return "fn:" + last(e.S)
	case "phi", "opaque":
		return last(e.S)
	case "global":
		return last(e.S)
	case "alloc", "struct":
		var ns []string
		for n := range e.Fields {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		var b strings.Builder
		if e.Op == "alloc" {
			b.WriteString("&" + last(e.S))
		} else if e.T != nil {
			b.WriteString(last(typeName(e.T)))
		}
		b.WriteString("{")
		for i, n := range ns {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(n + ": " + short(e.Fields[n]))
		}
		return b.String() + "}"
	case "param", "free", "const":
		return e.S
	case "nil":
		return "nil"
	case "zero":
		return "zero"
	case "ta", "istype", "conv":
		return e.Op + ":" + last(e.S) + "(" + sh(e.Args) + ")"
	}
	return e.Op + "(" + sh(e.Args) + ")"
}

func shortFact(f *Fact) string {
	ks := make([]string, len(f.A))
	for i, a := range f.A {
		ks[i] = short(a)
	}
	op := map[string]string{"eq": " == ", "ne": " != ", "lt": " < ", "le": " <= "}[f.Op]
	if op != "" {
		return strings.Join(ks, op)
	}
	r := f.Op + "(" + strings.Join(ks, ", ")
	if f.In != nil {
		r += ": " + shortFact(f.In)
	}
	return r + ")"
}

func shortFacts(fs *Facts, dids bool) string {
	var ks []string
	for _, f := range fs.m {
		if !dids && (f.Op == "did" || f.Op == "forall" && f.In.Op == "did") {
			continue
		}
		s := shortFact(f)
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n        ")
}

func dump(e *Engine, root string, kinds string, filter string) {
	f := e.P.Func(root)
	if f == nil {
		fmt.Println("no function", root)
		return
	}
	w := e.Walk(f, nil, func(c *CSite) {
		if !strings.Contains(kinds, c.Kind) {
			return
		}
		hd := fmt.Sprintf("%s %s W=%v %s", c.Kind, c.Name, c.W, c.where(e.P))
		if filter != "" && !strings.Contains(hd, filter) {
			return
		}
		fmt.Println(hd)
		for _, a := range c.Alts {
			as := make([]string, len(a.Args))
			for i, x := range a.Args {
				as[i] = short(x)
			}
			fmt.Printf("    target %s args %s\n        %s\n", short(a.Target), strings.Join(as, " | "), shortFacts(a.Facts, strings.Contains(kinds, "+did")))
		}
	})
	fmt.Println("unstable", e.unstable)
	fmt.Println("sites", w.nSites, "alts", w.nAlts, "skipped", w.skipped, "lost", w.lost, "fns", len(w.fns))
}

// isSender recognises the address recovered from a transaction's signature.
func isSender(e *Expr) bool {
	return e != nil && e.Op == "call" && strings.HasSuffix(e.S, "crypto.PubkeyToAddress") && contains(e, func(x *Expr) bool {
		return x.Op == "call" && (strings.HasSuffix(x.S, "crypto.SigToPub") || strings.HasSuffix(x.S, "crypto.Ecrecover"))
	})
}

// dumpActions prints the actions of a kind with the facts common to all paths.
func dumpActions(repo, kind string) {
	c := &Ctx{repo: repo, engs: map[string]*Engine{}, seen: map[string]*obligation{}, fns: map[*ssa.Function]bool{}}
	e := c.shm()
	for _, s := range c.actions(e) {
		if kind == "?" {
			m := map[string]int{}
			for _, r := range s.acts {
				m[r.kind()+" "+short(r.x)[:40]]++
			}
			fmt.Println(s.s.where(e.P), m)
			continue
		}
		n := 0
		common := map[string]int{}
		bodies := map[string]int{}
		for _, r := range s.acts {
			if r.kind() != kind {
				continue
			}
			n++
			for _, f := range strings.Split(shortFacts(r.a.Facts, os.Getenv("VTDID") != ""), "\n") {
				common[strings.TrimSpace(f)]++
			}
			for k, v := range r.body {
				b := k + " = " + short(v)
				if len(b) > 700 {
					b = b[:700] + "…"
				}
				bodies[b]++
			}
		}
		if n == 0 {
			continue
		}
		fmt.Println(s.s.where(e.P), n)
		for _, m := range []map[string]int{bodies, common} {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if os.Getenv("ALL") == "" && m[k] != n && len(ks) > 12 {
					continue
				}
				if len(k) > 400 {
					k = k[:400] + "…"
				}
				fmt.Printf("   %3d %s\n", m[k], k)
			}
		}
	}
}
