package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type oblOut struct {
	Name    string   `json:"name"`
	Fn      string   `json:"function"`
	Pos     string   `json:"pos"`
	Goal    string   `json:"goal,omitempty"`
	Answers []string `json:"answers,omitempty"`
}

type report struct {
	Property     string            `json:"property"`
	Functions    []string          `json:"functions"`
	Inlined      []string          `json:"inlined"`
	Obligations  int               `json:"obligations"`
	Discharged   int               `json:"discharged"`
	ByBackend    map[string]int    `json:"by_backend"`
	ByKind       map[string]int    `json:"by_kind"`
	SolverSec    float64           `json:"solver_seconds"`
	WallSec      float64           `json:"wall_seconds"`
	MaxSec       float64           `json:"max_obligation_seconds"`
	Failed       []oblOut          `json:"failed"`
	Late         []string          `json:"late"`
	Vacuous      []string          `json:"vacuous"`
	Unsupported  map[string]string `json:"unsupported"`
	Trusted      map[string]string `json:"trusted"`
	Axioms       map[string]string `json:"axioms"`
	LoadError    string            `json:"load_error,omitempty"`
	PreludeCount int               `json:"theory_axioms"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("fn", "", "only functions whose key contains this")
	verbose := flag.Bool("v", false, "print every obligation")
	out := flag.String("json", "", "write a report")
	limit := flag.Float64("limit", 0, "seconds after which no solver is started any more")
	dump := flag.String("dump", "", "directory for failed queries")
	quick := flag.Float64("t", 5, "first timeout")
	slow := flag.Float64("T", 20, "retry timeout")
	oblf := flag.String("obl", "", "only obligations whose name contains one of these (comma separated)")
	noLemmas := flag.Bool("nolemmas", false, "skip the lemma obligations")
	flag.Parse()
	t0 := time.Now()
	rep := &report{Property: *prop, ByBackend: map[string]int{}, ByKind: map[string]int{}, Unsupported: map[string]string{}, Trusted: map[string]string{}, Axioms: map[string]string{}}
	write := func() {
		rep.WallSec = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			_ = os.WriteFile(*out, b, 0o644)
		}
	}
	specs := LoadSpecs(*dir)
	p, err := LoadProgram(*repo, specs)
	if err != nil {
		rep.LoadError = err.Error()
		write()
		fmt.Println("load error:", err)
		os.Exit(3)
	}
	p.prop = *prop
	if *limit > 0 {
		p.deadline = t0.Add(time.Duration(*limit * float64(time.Second)))
	}
	initPrelude()
	rep.PreludeCount = len(prelude)
	var lemmas []*specAxiom
	lemmaIdx := map[string]int{}
	for i, l := range specs.Lemmas {
		lemmaIdx["lemma "+l.Name] = i
		if !(&Clause{Labels: l.Labels}).has(*prop) {
			continue
		}
		if l.Axiom != "" {
			rep.Axioms[l.Name] = l.Axiom
		}
		if !l.Export {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep.Unsupported["lemma "+l.Name] = fmt.Sprint(e)
				}
			}()
			t := p.lemmaAxiom(l)
			lemmas = append(lemmas, &specAxiom{t: t, pats: termPats(t), name: l.Name, idx: i})
		}()
	}
	// closure of the functions to verify
	p.used = map[string]bool{}
	p.usedFns = map[string]*ssa.Function{}
	p.inlined = map[string]bool{}
	done := map[string]bool{}
	var queue []string
	for _, k := range specs.Order {
		c := specs.Contracts[k]
		for _, q := range c.Props {
			if q == *prop {
				queue = append(queue, k)
			}
		}
	}
	var obls, probes []*Obligation
	probeBy := map[string][]*Obligation{}
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		con := specs.Contracts[k]
		if con.Extern || con.Trusted != "" {
			why := con.Trusted
			if why == "" {
				why = "library contract"
			}
			rep.Trusted[shortKey(k)] = why
			continue
		}
		if con.Quiet {
			for _, m := range con.Mods {
				for _, mk := range m.Keys {
					if mk != "next" && !strings.HasPrefix(mk, "ghost:") {
						rep.Unsupported[shortKey(k)] = "quiet, with a modifies clause"
					}
				}
			}
		}
		if q := con.Elsewhere[*prop]; q != "" {
			for _, c := range con.Ensures {
				if c.has(*prop) && !c.has(q) {
					rep.Unsupported[shortKey(k)] = "a clause is not proved under " + q
				}
			}
			for _, m := range con.Mods {
				if m.in(q) && !m.in(*prop) {
					rep.Unsupported[shortKey(k)] = "a modifies clause of " + q + " is missing"
				}
			}
			rep.Trusted[shortKey(k)] = "proved by the check of " + q
			continue
		}
		if *only != "" && !strings.Contains(k, *only) {
			continue
		}
		fn := p.fns[k]
		if fn == nil {
			for _, f := range p.usedFns {
				if o := f.Origin(); o != nil && o.String() == k {
					fn = f
				}
			}
		}
		if fn == nil || len(fn.Blocks) == 0 {
			rep.Unsupported[shortKey(k)] = "no such function in the code"
			continue
		}
		r := p.verifyFn(con, fn, *prop)
		rep.Functions = append(rep.Functions, shortKey(k))
		if r.Unsupported != "" {
			rep.Unsupported[shortKey(k)] = r.Unsupported
			for u := range p.used {
				if !done[u] {
					queue = append(queue, u)
				}
			}
			continue
		}
		obls = append(obls, r.Obls...)
		probes = append(probes, r.Probes...)
		probeBy[r.Key] = r.Probes
		var us []string
		for u := range p.used {
			if !done[u] {
				us = append(us, u)
			}
		}
		sort.Strings(us)
		queue = append(queue, us...)
	}
	if !*noLemmas {
		lo, err := p.lemmaObls(*prop)
		if err != nil {
			rep.Unsupported["lemmas"] = err.Error()
		}
		if *only == "" || strings.HasPrefix(*only, "lemma") {
			obls = append(obls, lo...)
		}
	}
	if *oblf != "" {
		var l []*Obligation
		for _, o := range obls {
			for _, f := range strings.Split(*oblf, ",") {
				if strings.Contains(o.Kind+":"+o.Name, f) {
					l = append(l, o)
					break
				}
			}
		}
		obls = l
	}
	vs := p.discharge(obls, lemmas, lemmaIdx, *quick, *slow, *dump)
	for _, v := range vs {
		rep.Obligations++
		rep.ByKind[v.O.Kind]++
		rep.SolverSec += v.Time.Seconds()
		if v.Time.Seconds() > rep.MaxSec {
			rep.MaxSec = v.Time.Seconds()
		}
		if v.OK {
			rep.Discharged++
			rep.ByBackend[v.Solver]++
		} else {
			if v.Late {
				rep.Late = append(rep.Late, v.O.Fn+" "+v.O.Kind+":"+v.O.Name)
			} else {
				rep.Failed = append(rep.Failed, oblOut{Name: v.O.Kind + ":" + v.O.Name, Fn: v.O.Fn, Pos: v.O.Pos, Goal: v.O.Goal.String(), Answers: v.Answers})
			}
		}
		if *verbose || !v.OK {
			s := "ok  "
			if v.Late {
				s = "LATE"
			} else if !v.OK {
				s = "FAIL"
			}
			fmt.Printf("%s %s %s:%s [%s] %s %.2fs\n", s, v.O.Fn, v.O.Kind, v.O.Name, v.O.Pos, v.Solver, v.Time.Seconds())
			if v.OK && len(v.Answers) > 1 {
				fmt.Printf("     %s\n", strings.Join(v.Answers, "; "))
			}
			if !v.OK {
				g := v.O.Goal.String()
				if len(g) > 600 {
					g = g[:600] + "..."
				}
				fmt.Printf("     goal %s\n     %s\n", g, strings.Join(v.Answers, "; "))
			}
		}
	}
	// vacuity: at least one exit of every function must not be refutable
	pv := p.discharge(probes, lemmas, lemmaIdx, 1.5, 1.5, "")
	ok := map[string]bool{}
	for _, v := range pv {
		rep.SolverSec += v.Time.Seconds()
		if v.OK {
			ok[v.O.Fn] = true
		}
	}
	for k := range probeBy {
		n := p.shortFn(p.fnOf(k))
		if !ok[n] {
			rep.Vacuous = append(rep.Vacuous, n)
		}
	}
	sort.Strings(rep.Vacuous)
	for k := range p.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Inlined)
	sort.Strings(rep.Functions)
	write()
	fmt.Printf("property %s: %d functions, %d obligations, %d discharged, %d unsupported, vacuous %v, solver %.1fs, max %.1fs, wall %.1fs\n", *prop, len(rep.Functions), rep.Obligations, rep.Discharged, len(rep.Unsupported), rep.Vacuous, rep.SolverSec, rep.MaxSec, time.Since(t0).Seconds())
	for _, k := range sortedKeys(rep.Unsupported) {
		fmt.Printf("  unsupported %s: %s\n", k, rep.Unsupported[k])
	}
	if len(rep.Failed) > 0 || len(rep.Vacuous) > 0 {
		os.Exit(1)
	}
	if len(rep.Unsupported) > 0 || len(rep.Late) > 0 {
		os.Exit(2)
	}
}

func (p *Program) fnOf(k string) *ssa.Function {
	if f := p.fns[k]; f != nil {
		return f
	}
	for _, f := range p.usedFns {
		if o := f.Origin(); o != nil && o.String() == k {
			return f
		}
	}
	return nil
}
