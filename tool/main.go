// Command vt statically checks semantic properties of the shutter repository.
//
//	vt -repo /repo -verif /verif -property C01
//	vt -repo /repo -dump shuttermint -root FUNC -kinds "store call" [-filter X]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what is decided, in one paragraph
	Mods []string
	Min  map[string]int // rule -> minimal number of instances
	Run  func(*Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

// Ctx is the context of one check run.
type Ctx struct {
	Check *Check
	repo  string
	engs  map[string]*Engine
	obl   []*obligation
	seen  map[string]*obligation
	fns   map[*ssa.Function]bool
	sites int
	alts  int
	notes []string
}

// mod loads a module of the repository ("shlib" or "shuttermint").
func (c *Ctx) mod(name string) *Engine {
	if e := c.engs[name]; e != nil {
		return e
	}
	if e := shared[name]; e != nil {
		c.engs[name] = e
		return e
	}
	p, err := Load(filepath.Join(c.repo, name))
	if err != nil {
		panic(fatal{err.Error()})
	}
	p.IndexFields()
	e := NewEngine(p)
	c.engs[name] = e
	if shared != nil {
		shared[name] = e
	}
	return e
}

// shared holds the loaded modules when several properties are checked in one run.
var shared map[string]*Engine

type fatal struct{ msg string }

func (c *Ctx) shm() *Engine { return c.mod("shuttermint") }
func (c *Ctx) shl() *Engine { return c.mod("shlib") }

// Func resolves an anchor; a missing anchor is a failure.
func (c *Ctx) Func(e *Engine, name string) *ssa.Function {
	f := e.P.Func(name)
	if f == nil {
		panic(fatal{"unresolved anchor: function " + name})
	}
	return f
}

// method resolves a method with pointer or value receiver.
func (c *Ctx) method(e *Engine, typ, name string) *ssa.Function {
	if f := e.P.Func("(*" + typ + ")." + name); f != nil && f.Synthetic == "" {
		return f
	}
	return c.Func(e, "("+typ+")."+name)
}

// must records an obligation.
func (c *Ctx) must(ok bool, rule, construct, detail string) bool {
	k := rule + "|" + construct
	if o := c.seen[k]; o != nil {
		if o.OK && !ok {
			o.OK, o.Detail = false, detail
		}
		return ok
	}
	o := &obligation{Rule: rule, Construct: construct, OK: ok}
	if !ok {
		o.Detail = detail
	}
	c.seen[k] = o
	c.obl = append(c.obl, o)
	return ok
}

// walk is Engine.Walk with accounting.
func (c *Ctx) walk(e *Engine, root *ssa.Function, enter func(*ssa.Function, []*Site) bool, visit func(*CSite)) {
	w := e.Walk(root, enter, visit)
	for f := range w.fns {
		c.fns[f] = true
	}
	c.sites += w.nSites
	c.alts += w.nAlts
	if w.lost > 0 {
		c.notes = append(c.notes, fmt.Sprintf("%s: %d merges of path facts", fnName(root), w.lost))
	}
}

// each checks pred for all alternatives of a site.
func (c *Ctx) each(s *CSite, rule string, pred func(a *CAlt) bool, msg string) {
	e := c.engineOf(s)
	where := s.where(e.P)
	construct := s.Kind + " at " + where
	for _, a := range s.Alts {
		if !c.holds(e, a, pred) {
			c.must(false, rule, construct, msg+"; known on a violating path:\n        "+altArgs(a)+shortFacts(a.Facts, os.Getenv("VTDID") != ""))
			return
		}
	}
	c.must(true, rule, construct, "")
}

// holds decides pred on a path, distinguishing the outcomes of calls where necessary.
func (c *Ctx) holds(e *Engine, a *CAlt, pred func(a *CAlt) bool) bool {
	return e.Implies(a.Facts, func(f *Facts) bool {
		b := *a
		b.Facts = f
		return pred(&b)
	})
}

func (c *Ctx) engineOf(s *CSite) *Engine {
	for _, e := range c.engs {
		if e.P.Prog == s.Fn.Prog {
			return e
		}
	}
	return nil
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("property", "", "property to check")
	dumpMod := flag.String("dump", "", "module to dump")
	root := flag.String("root", "", "")
	kinds := flag.String("kinds", "store mapupdate delete", "")
	filter := flag.String("filter", "", "")
	acts := flag.String("actions", "", "dump scheduled actions of this kind")
	algf := flag.String("alg", "", "functions to interpret algebraically")
	opq := flag.String("opaque", "", "")
	list := flag.Bool("list", false, "list the checks")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if *dumpMod != "" {
		p, err := Load(filepath.Join(*repo, *dumpMod))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p.IndexFields()
		if *algf != "" {
			dumpAlg(NewEngine(p), *algf, *opq)
			return
		}
		dump(NewEngine(p), *root, *kinds, *filter)
		return
	}
	if *acts != "" {
		dumpActions(*repo, *acts)
		return
	}
	if *prop == "all" || strings.Contains(*prop, ",") { // development: several properties with shared summaries
		rc := 0
		ids := strings.Split(*prop, ",")
		if *prop == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		shared = map[string]*Engine{}
		for _, id := range ids {
			if run(checks[id], *repo, *verif, *verbose) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	os.Exit(run(ck, *repo, *verif, *verbose))
}

func run(ck *Check, repo, verif string, verbose bool) int {
	start := time.Now()
	c := &Ctx{Check: ck, repo: repo, engs: map[string]*Engine{}, seen: map[string]*obligation{}, fns: map[*ssa.Function]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(fatal); ok {
					c.must(false, "analysis", "could not analyse", f.msg)
					return
				}
				c.must(false, "analysis", "internal error", fmt.Sprintf("%v\n%s", r, debug.Stack()))
			}
		}()
		for _, m := range ck.Mods {
			c.mod(m)
		}
		ck.Run(c)
	}()
	counts := map[string]int{}
	for _, o := range c.obl {
		counts[o.Rule]++
	}
	var rules []string
	for r := range ck.Min {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	if o := c.seen["analysis|could not analyse"]; o == nil {
		for _, r := range rules {
			c.must(counts[r] >= ck.Min[r], "instances of "+r, "whole program", fmt.Sprintf("found %d instances of rule %q, at least %d exist in the confirmed code", counts[r], r, ck.Min[r]))
		}
	}
	known := knownFindings(filepath.Join(verif, "known-findings.txt"), ck.ID)
	bad, discharged := 0, 0
	var rep strings.Builder
	for _, o := range c.obl {
		if o.OK {
			discharged++
			continue
		}
		if what, ok := known[o.Rule+" | "+stripPos(o.Construct)]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, what)
			continue
		}
		bad++
		fmt.Fprintf(&rep, "rule: %s\nconstruct: %s\n    %s\n\n", o.Rule, o.Construct, o.Detail)
	}
	evdir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, ck.ID+".violation.txt")
	_ = os.Remove(replay)
	var samples []any
	var fl []string
	for i, o := range c.obl {
		if i < 400 {
			samples = append(samples, o)
		}
	}
	for f := range c.fns {
		fl = append(fl, fnName(f))
	}
	sort.Strings(fl)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	mods := map[string]any{}
	for n, e := range c.engs {
		mods[n] = map[string]int{"packages": len(e.P.Pkgs), "functions": len(e.P.fns), "functions_summarised": e.nFns}
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":       ck.Rule,
			"obligations":       len(c.obl),
			"discharged":        discharged,
			"rule_instances":    counts,
			"min_instances":     ck.Min,
			"modules":           mods,
			"functions_walked":  len(fl),
			"functions":         fl,
			"sites_visited":     c.sites,
			"path_alternatives": c.alts,
			"samples":           samples,
			"notes":             c.notes,
		},
		"assumptions": []string{
			"memory reached through unrelated access paths is not aliased except where a write to the same field is seen",
			"calls through interfaces resolve to the types declared in the module; reflection and unsafe are not followed",
			"external packages behave as documented",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": bad,
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(evdir, ck.ID+".json"), js, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	if verbose {
		for _, o := range c.obl {
			fmt.Println(map[bool]string{true: "ok  ", false: "FAIL"}[o.OK], o.Rule, "|", o.Construct)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d sites, %.1fs\n", ck.ID, len(c.obl), discharged, len(fl), c.sites, time.Since(start).Seconds())
	if bad > 0 {
		_ = os.WriteFile(replay, []byte(rep.String()), 0o644)
		s := rep.String()
		if len(s) > 6000 {
			s = s[:6000] + "…\n"
		}
		fmt.Print(s)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, replay)
		return 1
	}
	return 0
}

// stripPos removes line numbers.
func stripPos(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == ':' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// knownFindings reads lines "finding: property=<id> key=<rule | construct> what=<text>".
func knownFindings(path, id string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if k, w, ok := strings.Cut(l, " what="); ok {
			m[k] = w
		}
	}
	return m
}

// altArgs describes the operands of a site.
func altArgs(a *CAlt) string {
	if a.Target == nil && len(a.Args) == 0 {
		return ""
	}
	s := "operands:"
	if a.Target != nil {
		s += " target " + short(a.Target)
	}
	for _, x := range a.Args {
		s += " | " + short(x)
	}
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s + "\n        "
}
