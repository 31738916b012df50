package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
)

// theory prelude: declarations and axioms. Axioms are included in a query only when one of their
// triggers is built from symbols of the query.
const preludeDecls = `
(declare-sort Ref 0)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort Fun 0)
(declare-sort Flt 0)
(declare-datatypes ((Slice 0)) (((mkS (sb Int) (so Int) (sl Int) (sc Int)))))
(declare-fun null () Ref)
(declare-fun obj (Int) Ref)
(declare-fun elem (Int Int) Ref)
(declare-fun fld (Ref Int) Ref)
(declare-fun aid (Ref) Int)
(declare-fun rix (Ref) Int)
(declare-fun rkind (Ref) Int)
(declare-fun rpar (Ref) Ref)
(declare-fun at (Slice Int) Ref)
(declare-fun nilS () Slice)
(declare-fun nilI () Iface)
(declare-fun nilF () Fun)
(declare-fun flt0 () Flt)
(declare-fun flteq (Flt Flt) Bool)
(define-fun wfS ((s Slice) (n Int)) Bool (and (<= 0 (sl s)) (<= (sl s) (sc s)) (<= (+ (so s) (sc s)) 1099511627776) (<= 0 (so s)) (<= 0 (sb s)) (< (sb s) n) (=> (= (sb s) 0) (= (sc s) 0))))
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun substr (Str Int Int) Str)
(declare-fun cat (Str Str) Str)
(declare-fun strlt (Str Str) Bool)
(declare-fun rc (Str) Int)
(declare-fun bp (Str Int) Int)
(declare-fun ridx (Str Int) Int)
(declare-fun imul (Int Int) Int)
(declare-fun isB (Str Int) Bool)
(declare-fun runeAt (Str Int) Int)
(declare-fun strOfRune (Int) Str)
(declare-fun bstr ((Array Ref Int) Slice) Str)
(declare-fun bslice (Str) Slice)
(declare-fun wraps8 (Int) Int)
(declare-fun wraps16 (Int) Int)
(declare-fun wraps32 (Int) Int)
(declare-fun wraps64 (Int) Int)
(declare-fun wrapu8 (Int) Int)
(declare-fun wrapu16 (Int) Int)
(declare-fun wrapu32 (Int) Int)
(declare-fun wrapu64 (Int) Int)
`

const preludeAxioms = `
(= (aid null) 0)
(= (rkind null) 0)
(= nilS (mkS 0 0 0 0))
(forall ((i Int)) (! (and (= (aid (obj i)) i) (= (rkind (obj i)) 1)) :pattern ((obj i))))
(forall ((b Int) (i Int)) (! (and (= (aid (elem b i)) b) (= (rix (elem b i)) i) (= (rkind (elem b i)) 2)) :pattern ((elem b i))))
(forall ((r Ref) (k Int)) (! (and (= (aid (fld r k)) (aid r)) (= (rix (fld r k)) (rix r)) (= (rpar (fld r k)) r) (= (rkind (fld r k)) (+ 3 k))) :pattern ((fld r k))))
(forall ((s Slice) (i Int)) (! (= (at s i) (elem (sb s) (+ (so s) i))) :pattern ((at s i))))
(forall ((x Int)) (! (and (<= (- 128) (wraps8 x) 127) (=> (<= (- 128) x 127) (= (wraps8 x) x))) :pattern ((wraps8 x))))
(forall ((x Int)) (! (and (<= (- 32768) (wraps16 x) 32767) (=> (<= (- 32768) x 32767) (= (wraps16 x) x))) :pattern ((wraps16 x))))
(forall ((x Int)) (! (and (<= (- 2147483648) (wraps32 x) 2147483647) (=> (<= (- 2147483648) x 2147483647) (= (wraps32 x) x))) :pattern ((wraps32 x))))
(forall ((x Int)) (! (and (<= (- 9223372036854775808) (wraps64 x) 9223372036854775807) (=> (<= (- 9223372036854775808) x 9223372036854775807) (= (wraps64 x) x))) :pattern ((wraps64 x))))
(forall ((x Int)) (! (and (<= 0 (wrapu8 x) 255) (=> (<= 0 x 255) (= (wrapu8 x) x))) :pattern ((wrapu8 x))))
(forall ((x Int)) (! (and (<= 0 (wrapu16 x) 65535) (=> (<= 0 x 65535) (= (wrapu16 x) x))) :pattern ((wrapu16 x))))
(forall ((x Int)) (! (and (<= 0 (wrapu32 x) 4294967295) (=> (<= 0 x 4294967295) (= (wrapu32 x) x))) :pattern ((wrapu32 x))))
(forall ((x Int)) (! (and (<= 0 (wrapu64 x) 18446744073709551615) (=> (<= 0 x 18446744073709551615) (= (wrapu64 x) x))) :pattern ((wrapu64 x))))
(forall ((a Int) (b Int)) (! (=> (and (<= 0 a 4294967296) (<= 0 b 1073741824)) (<= 0 (imul a b) 4611686018427387904)) :pattern ((imul a b))))
(forall ((s Str)) (! (<= 0 (slen s) 1099511627776) :pattern ((slen s))))
(forall ((s Str)) (! (=> (= (slen s) 0) (= s EMPTY)) :pattern ((slen s))))
(forall ((s Str) (i Int)) (! (<= 0 (sat s i) 255) :pattern ((sat s i))))
(forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (substr s a b)) (- b a))) :pattern ((substr s a b))))
(forall ((s Str)) (! (= (substr s 0 (slen s)) s) :pattern ((substr s 0 (slen s)))))
(forall ((s Str) (a Int) (b Int)) (! (=> (and (= a 0) (= b (slen s))) (= (substr s a b) s)) :pattern ((substr s a b))))
(forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (substr s a b) i) (sat s (+ a i)))) :pattern ((sat (substr s a b) i))))
(forall ((s Str) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (substr (substr s a b) c d) (substr s (+ a c) (+ a d)))) :pattern ((substr (substr s a b) c d))))
(forall ((s Str) (t Str)) (! (= (slen (cat s t)) (+ (slen s) (slen t))) :pattern ((cat s t))))
(forall ((s Str)) (! (= (cat s EMPTY) s) :pattern ((cat s EMPTY))))
(forall ((s Str)) (! (= (cat EMPTY s) s) :pattern ((cat EMPTY s))))
(forall ((s Str) (a Int) (b Int) (c Int)) (! (=> (and (<= 0 a) (<= a b) (<= b c) (<= c (slen s))) (= (cat (substr s a b) (substr s b c)) (substr s a c))) :pattern ((cat (substr s a b) (substr s b c)))))
(forall ((s Str) (t Str) (u Str)) (! (= (cat (cat s t) u) (cat s (cat t u))) :pattern ((cat (cat s t) u))))
(forall ((s Str)) (! (and (<= 0 (rc s)) (<= (rc s) (slen s)) (= (= (rc s) 0) (= (slen s) 0))) :pattern ((rc s))))
(forall ((s Str)) (! (and (= (bp s 0) 0) (= (bp s (rc s)) (slen s))) :pattern ((rc s))))
(forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (<= k (rc s))) (and (<= k (bp s k)) (<= (bp s k) (slen s)) (= (ridx s (bp s k)) k) (isB s (bp s k)))) :pattern ((bp s k))))
(forall ((s Str) (j Int) (k Int)) (! (=> (and (<= 0 j) (< j k) (<= k (rc s))) (<= (+ (bp s j) (- k j)) (bp s k))) :pattern ((bp s j) (bp s k))))
(forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (< k (rc s))) (and (<= 0 (runeAt s k) 1114111) (< (bp s k) (slen s)))) :pattern ((runeAt s k))))
(forall ((s Str) (k Int)) (! (<= (- 2147483648) (runeAt s k) 2147483647) :pattern ((runeAt s k))))
(forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (< k (rc s))) (and (<= (+ (bp s k) 1) (bp s (+ k 1))) (<= (bp s (+ k 1)) (+ (bp s k) 4)))) :pattern ((runeAt s k))))
(forall ((s Str) (p Int)) (! (=> (isB s p) (and (<= 0 (ridx s p)) (<= (ridx s p) (rc s)) (= (bp s (ridx s p)) p))) :pattern ((isB s p))))
(forall ((s Str)) (! (and (isB s 0) (isB s (slen s)) (= (ridx s 0) 0) (= (ridx s (slen s)) (rc s))) :pattern ((rc s))))
(forall ((s Str) (a Int) (b Int)) (! (=> (and (isB s a) (isB s b) (<= a b)) (= (rc (substr s a b)) (- (ridx s b) (ridx s a)))) :pattern ((substr s a b) (rc s))))
(forall ((s Str) (a Int) (b Int) (k Int)) (! (=> (and (isB s a) (isB s b) (<= a b) (<= 0 k) (<= k (- (ridx s b) (ridx s a)))) (= (bp (substr s a b) k) (- (bp s (+ (ridx s a) k)) a))) :pattern ((bp (substr s a b) k))))
(forall ((s Str) (a Int) (b Int) (k Int)) (! (=> (and (isB s a) (isB s b) (<= a b) (<= 0 k) (< k (- (ridx s b) (ridx s a)))) (= (runeAt (substr s a b) k) (runeAt s (+ (ridx s a) k)))) :pattern ((runeAt (substr s a b) k))))
(forall ((s Str) (a Int) (b Int) (p Int)) (! (=> (and (isB s a) (isB s b) (<= a b) (isB (substr s a b) p)) (isB s (+ a p))) :pattern ((isB (substr s a b) p))))
(forall ((s Str) (a Int) (b Int) (p Int)) (! (=> (and (isB s a) (isB s b) (<= a b) (isB (substr s a b) p)) (= (ridx s (+ a p)) (+ (ridx s a) (ridx (substr s a b) p)))) :pattern ((isB (substr s a b) p))))
(forall ((h (Array Ref Int)) (s Slice)) (! (=> (<= 0 (sl s)) (= (slen (bstr h s)) (sl s))) :pattern ((bstr h s))))
(forall ((h (Array Ref Int)) (s Slice) (i Int)) (! (=> (and (<= 0 i) (< i (sl s))) (= (sat (bstr h s) i) (select h (at s i)))) :pattern ((sat (bstr h s) i))))
(forall ((h (Array Ref Int)) (b Int) (o Int) (n Int) (c Int) (b2 Int) (o2 Int) (n2 Int) (c2 Int)) (! (=> (and (= b b2) (<= o o2) (<= (+ o2 n2) (+ o n)) (<= 0 n2)) (= (bstr h (mkS b2 o2 n2 c2)) (substr (bstr h (mkS b o n c)) (- o2 o) (- (+ o2 n2) o)))) :pattern ((bstr h (mkS b o n c)) (bstr h (mkS b2 o2 n2 c2)))))
`

type axiom struct {
	text string
	pats [][]string // symbols of each trigger
	all  map[string]bool
}

var prelude []*axiom
var preludeSyms = map[string]bool{}

var smtBuiltin = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "+": true, "-": true, "*": true, "div": true, "mod": true, "<": true, "<=": true, ">": true, ">=": true, "ite": true, "select": true, "store": true, "true": true, "false": true, "forall": true, "exists": true, "!": true, ":pattern": true, "distinct": true, "Int": true, "Bool": true, "Array": true, "let": true}

func initPrelude() {
	for _, d := range parseSexps(preludeDecls) {
		switch d.list[0].atom {
		case "declare-fun", "define-fun":
			preludeSyms[d.list[1].atom] = true
		}
	}
	for _, s := range []string{"mkS", "sb", "so", "sl", "sc"} {
		preludeSyms[s] = true
	}
	src := strings.ReplaceAll(preludeAxioms, "EMPTY", emptyStr().Op)
	for _, a := range parseSexps(src) {
		ax := &axiom{text: a.String(), all: map[string]bool{}}
		bound := map[string]bool{}
		if a.list[0].atom == "forall" {
			for _, v := range a.list[1].list {
				bound[v.list[0].atom] = true
			}
			body := a.list[2]
			for i := 2; i < len(body.list); i++ {
				if body.list[i].atom == ":pattern" {
					m := map[string]bool{}
					body.list[i+1].atoms(m)
					var q []string
					for s := range m {
						if !bound[s] && !smtBuiltin[s] {
							q = append(q, s)
						}
					}
					ax.pats = append(ax.pats, q)
				}
			}
		}
		m := map[string]bool{}
		a.atoms(m)
		for s := range m {
			if !bound[s] && !smtBuiltin[s] && preludeSyms[s] || strings.HasPrefix(s, "str!") {
				ax.all[s] = true
			}
		}
		prelude = append(prelude, ax)
	}
}

func termPats(t *Term) [][]string {
	var r [][]string
	if t.Op != "forall" {
		return nil
	}
	bound := map[string]bool{}
	for _, v := range t.Vars {
		bound[v.Op] = true
	}
	for _, p := range t.Pats {
		m := map[string]*Term{}
		for _, x := range p {
			x.syms(m)
		}
		var q []string
		for s := range m {
			if !bound[s] && !smtBuiltin[s] {
				q = append(q, s)
			}
		}
		r = append(r, q)
	}
	return r
}

type specAxiom struct {
	t    *Term
	pats [][]string
	name string
	idx  int // lemma index
}

// query renders one obligation as an SMT-LIB script.
type constEntry struct {
	cs    []int
	max   int
	quant bool
}

var constCache = map[*Term]constEntry{}

// sliceAssumes leaves out quantified assumptions about heap versions that the goal does not depend
// on. Every constant made during execution carries a serial number; an assumption is taken to speak
// about its newest constant, and is kept when that constant is needed. Dropping assumptions is sound.
func sliceAssumes(o *Obligation) []*Term {
	type info struct {
		t     *Term
		cs    []int
		max   int
		quant bool
	}
	num := func(s string) int {
		s = strings.Trim(s, "|")
		i := strings.LastIndex(s, "!")
		if i < 0 || strings.HasPrefix(s, "str!") {
			return -1
		}
		n, err := strconv.Atoi(s[i+1:])
		if err != nil {
			return -1
		}
		return n
	}
	consts := func(t *Term) ([]int, int) {
		m := map[string]*Term{}
		t.syms(m)
		var cs []int
		max := -1
		for k := range m {
			if n := num(k); n >= 0 {
				cs = append(cs, n)
				if n > max {
					max = n
				}
			}
		}
		return cs, max
	}
	var is []info
	for _, a := range o.Assumes {
		e, ok := constCache[a]
		if !ok {
			cs, max := consts(a)
			e = constEntry{cs, max, a.hasQuant()}
			constCache[a] = e
		}
		is = append(is, info{a, e.cs, e.max, e.quant})
	}
	need := map[int]bool{}
	cs, _ := consts(o.Goal)
	for _, c := range cs {
		need[c] = true
	}
	// heap versions that ground facts on the path mention are not needed by themselves
	for ch := true; ch; {
		ch = false
		for i := range is {
			if is[i].cs != nil && need[is[i].max] {
				for _, c := range is[i].cs {
					if !need[c] {
						need[c] = true
						ch = true
					}
				}
				is[i].cs = nil
			}
		}
	}
	var out []*Term
	for _, a := range is {
		if !a.quant || a.max < 0 || need[a.max] {
			out = append(out, a.t)
		}
	}
	return out
}

func (p *Program) query(o *Obligation, lemmas []*specAxiom, maxLemma int, sliced bool) string {
	var asserts []*Term
	if sliced {
		asserts = sliceAssumes(o)
	} else {
		asserts = append(asserts, o.Assumes...)
	}
	goal := Not(o.Goal)
	syms := map[string]*Term{}
	for _, a := range asserts {
		a.syms(syms)
	}
	goal.syms(syms)
	var extra []*Term
	inc := make([]bool, len(prelude))
	incL := make([]bool, len(lemmas))
	doneSym := map[string]bool{}
	var names []string
	has := func(pats [][]string) bool {
		if len(pats) == 0 {
			return true
		}
		for _, q := range pats {
			ok := true
			for _, s := range q {
				if _, in := syms[s]; !in {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	add := func(t *Term) {
		extra = append(extra, t)
		t.syms(syms)
	}
	for ch := true; ch; {
		ch = false
		names = names[:0]
		for s := range syms {
			if !doneSym[s] {
				names = append(names, s)
			}
		}
		sort.Strings(names)
		for _, s := range names {
			doneSym[s] = true
			for _, a := range p.symAx[s] {
				ch = true
				add(a)
			}
			if i := strings.LastIndex(s, "$"); i > 0 {
				if ri, ok := p.recs[s[:i]]; ok && !o.Hide[s[:i]] && strings.HasSuffix(s, fmt.Sprintf("$%d", ri.r.Fuel)) {
					for _, a := range ri.ax {
						ch = true
						add(a)
					}
				}
			}
		}
		for i, l := range lemmas {
			if !incL[i] && l.idx < maxLemma && !o.Hide[l.name] && has(l.pats) {
				incL[i] = true
				ch = true
				add(l.t)
			}
		}
		for i, a := range prelude {
			if inc[i] {
				continue
			}
			if has(a.pats) {
				inc[i] = true
				ch = true
				for s := range a.all {
					if _, ok := syms[s]; !ok {
						srt := SInt
						if strings.HasPrefix(s, "str!") {
							srt = SStr
						}
						syms[s] = mk(s, srt)
					}
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString(preludeDecls)
	// declarations
	ks := make([]string, 0, len(syms))
	for k := range syms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var strs []string
	for _, k := range ks {
		t := syms[k]
		if smtBuiltin[k] || preludeSyms[k] || strings.HasPrefix(k, "(as const") {
			continue
		}
		if _, lit := t.isLit(); lit {
			continue
		}
		if strings.HasPrefix(k, "str!") {
			strs = append(strs, k)
		}
		fmt.Fprintf(&b, "(declare-fun %s (", k)
		for i, a := range t.Args {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(a.Sort)
		}
		fmt.Fprintf(&b, ") %s)\n", t.Sort)
	}
	if len(strs) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(strs, " "))
	}
	for _, s := range strs {
		v := strVals[s]
		if v == "" {
			fmt.Fprintf(&b, "(assert (= (slen %s) 0))\n(assert (= (rc %s) 0))\n", s, s)
			continue
		}
		fmt.Fprintf(&b, "(assert (= (slen %s) %d))\n(assert (= (rc %s) %d))\n", s, len(v), s, utf8.RuneCountInString(v))
		if len(v) <= 4 {
			for i := 0; i < len(v); i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", s, i, v[i])
			}
		}
	}
	for i, a := range prelude {
		if inc[i] {
			b.WriteString("(assert " + a.text + ")\n")
		}
	}
	for _, a := range extra {
		b.WriteString("(assert " + a.String() + ")\n")
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a.String() + ")\n")
	}
	b.WriteString("(assert " + goal.String() + ")\n(check-sat)\n")
	return b.String()
}

type solverCfg struct {
	name string
	args []string
	pre  string
	lite bool // leaves out the theory axioms that multiply most; fewer axioms cannot prove more
}

// "(push)" makes z3 skip the preprocessing that inlines equalities into triggers.
const z3pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

var solvers = []solverCfg{
	{"z3-5.3", []string{"z3-new", "-memory:3000", "-in"}, z3pre + "(push)\n", false},
	{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "-"}, "(set-logic ALL)\n", false},
	{"z3-4.8", []string{"z3", "-memory:3000", "-in"}, z3pre, false},
	{"z3-5.3-nopush", []string{"z3-new", "-memory:3000", "-in"}, z3pre, false},
	{"z3-5.3-s7", []string{"z3-new", "-memory:3000", "-in"}, z3pre + "(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n(push)\n", false},
	{"z3-5.3-mbqi", []string{"z3-new", "-memory:3000", "-in"}, "", false},
	{"z3-5.3-lite", []string{"z3-new", "-memory:3000", "-in"}, z3pre + "(push)\n", true},
}

// the order of character positions, for every pair of them
const pairAxiom = `(forall ((s Str) (j Int) (k Int)) (! (=> (and (<= 0 j) (< j k) (<= k (rc s))) (<= (+ (bp s j) (- k j)) (bp s k))) :pattern ((bp s j) (bp s k))))`

func runSolver(parent context.Context, c solverCfg, q string, sec float64) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(parent, time.Duration(sec*float64(time.Second)))
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, c.args[0], c.args[1:]...)
	if c.lite {
		q = strings.Replace(q, "(assert "+pairAxiom+")\n", "", 1)
	}
	cmd.Stdin = strings.NewReader(c.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	_ = cmd.Run()
	d := time.Since(t0)
	s := strings.TrimSpace(out.String())
	if strings.Contains(s, "error") {
		return "error: " + s, d
	}
	for _, l := range strings.Split(s, "\n") {
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			s = l
		}
	}
	if s == "" {
		s = "timeout"
	}
	return s, d
}

type Verdict struct {
	O       *Obligation
	OK      bool
	Solver  string
	Time    time.Duration
	Answers []string
	Late    bool // the time ran out before a solver gave up on it
}

// discharge runs all obligations on a pool of workers.
func (p *Program) discharge(obls []*Obligation, lemmas []*specAxiom, lemmaIdx map[string]int, quickSec, slowSec float64, dump string) []*Verdict {
	res := make([]*Verdict, len(obls))
	var mu, qmu sync.Mutex
	fails := 0
	maxOf := func(o *Obligation) int {
		if n, ok := lemmaIdx[o.Fn]; ok {
			return n
		}
		return 1 << 30
	}
	late := func() bool { return !p.deadline.IsZero() && time.Now().After(p.deadline) }
	// attempt runs the solvers of a plan until one discharges the obligation.
	type step struct {
		cfg  int
		full bool
		sec  float64
	}
	attempt := func(v *Verdict, plan []step) bool {
		var qs [2]string
		for _, s := range plan {
			if late() {
				v.Late = true
				return false
			}
			k := 0
			if s.full {
				k = 1
			}
			if qs[k] == "" {
				qmu.Lock()
				qs[k] = p.query(v.O, lemmas, maxOf(v.O), !s.full)
				qmu.Unlock()
				if s.full {
					if qs[0] == "" {
						qmu.Lock()
						qs[0] = p.query(v.O, lemmas, maxOf(v.O), true)
						qmu.Unlock()
					}
					if qs[0] == qs[1] {
						qs[1] = "same"
					}
				}
			}
			if qs[k] == "same" {
				continue
			}
			c := solvers[s.cfg]
			a, d := runSolver(context.Background(), c, qs[k], s.sec)
			v.Time += d
			v.Answers = append(v.Answers, fmt.Sprintf("%s: %s (%.2fs)", c.name, a, d.Seconds()))
			if a == "unsat" {
				v.OK, v.Solver = true, c.name
				return true
			}
		}
		return false
	}
	// race runs all steps of a plan at once.
	race := func(v *Verdict, plan []step) bool {
		var qs [2]string
		for k := range qs {
			qs[k] = p.query(v.O, lemmas, maxOf(v.O), k == 0)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type answer struct {
			s step
			a string
			d time.Duration
		}
		n := 0
		ch := make(chan answer, len(plan))
		for _, s := range plan {
			if s.full && qs[0] == qs[1] {
				continue
			}
			q := qs[0]
			if s.full {
				q = qs[1]
			}
			n++
			go func() {
				a, d := runSolver(ctx, solvers[s.cfg], q, s.sec)
				ch <- answer{s, a, d}
			}()
		}
		for ; n > 0; n-- {
			r := <-ch
			v.Time += r.d
			c := solvers[r.s.cfg]
			v.Answers = append(v.Answers, fmt.Sprintf("%s: %s (%.2fs)", c.name, r.a, r.d.Seconds()))
			if r.a == "unsat" {
				v.OK, v.Solver = true, c.name
				return true
			}
		}
		return false
	}
	h := quickSec / 2
	quick := []step{{0, false, h}, {6, false, h}, {0, true, h}, {1, false, h}, {2, false, h}}
	slow := []step{{0, false, slowSec}, {1, false, slowSec}, {4, false, slowSec}, {6, false, slowSec}, {0, true, slowSec}, {2, true, slowSec}, {1, true, slowSec},
		{3, false, slowSec}, {2, false, slowSec}, {5, false, slowSec}}
	workN := func(n int, vs []*Verdict, f func(v *Verdict)) {
		sem := make(chan struct{}, n)
		var wg sync.WaitGroup
		for _, v := range vs {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				f(v)
				<-sem
			}()
		}
		wg.Wait()
	}
	work := func(vs []*Verdict, f func(v *Verdict)) { workN(runtime.NumCPU(), vs, f) }
	var todo []*Verdict
	for i, o := range obls {
		v := &Verdict{O: o}
		res[i] = v
		if isTrue(o.Goal) {
			v.OK, v.Solver = true, "syntactic"
			continue
		}
		todo = append(todo, v)
	}
	work(todo, func(v *Verdict) {
		if v.O.Expect == "sat" {
			qmu.Lock()
			q := p.query(v.O, lemmas, maxOf(v.O), true)
			qmu.Unlock()
			a, d := runSolver(context.Background(), solvers[0], q, quickSec)
			v.Time = d
			v.OK = a != "unsat"
			v.Solver = "probe:" + a
			return
		}
		attempt(v, quick)
	})
	var again []*Verdict
	for _, v := range todo {
		if !v.OK && v.O.Expect != "sat" {
			again = append(again, v)
		}
	}
	few := len(again) <= 6
	par := runtime.NumCPU()
	if few {
		par = 1
	}
	workN(par, again, func(v *Verdict) {
		if late() {
			v.Late = true
			return
		}
		mu.Lock()
		skip := fails >= 12
		mu.Unlock()
		if skip {
			v.Answers = append(v.Answers, "not retried: many failures")
			return
		}
		if few && race(v, slow) || !few && attempt(v, slow) {
			return
		}
		// the last resort, when nearly everything else is settled: the same solvers with more time
		if len(again) <= 2 && !late() {
			sec := 4 * slowSec
			if !p.deadline.IsZero() {
				sec = min(sec, time.Until(p.deadline).Seconds())
			}
			long := append([]step{}, slow...)
			for i := range long {
				long[i].sec = sec
			}
			if race(v, long) {
				return
			}
		}
		if v.Late {
			return
		}
		mu.Lock()
		fails++
		mu.Unlock()
	})
	if dump != "" {
		for i, v := range res {
			if v.OK {
				continue
			}
			o := v.O
			name := strings.Map(func(r rune) rune {
				if r == '/' || r == ' ' || r == '(' || r == ')' || r == '*' || r == ':' {
					return '_'
				}
				return r
			}, fmt.Sprintf("%s-%s-%s-%d.smt2", o.Fn, o.Kind, o.Name, i))
			_ = os.WriteFile(filepath.Join(dump, name), []byte(p.query(o, lemmas, maxOf(o), true)), 0o644)
		}
	}
	return res
}
