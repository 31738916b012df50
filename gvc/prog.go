package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	specs      *SpecFile
	ssa        *ssa.Program
	pkgs       map[string]*types.Package
	fset       *token.FileSet
	keyTypes   map[string]types.Type
	prop       string
	deadline   time.Time
	lemmaOn    bool // a lemma is being proved: curLemma, with measure curMeasure
	curLemma   int
	curMeasure *Term
	sccs       map[string][]string
	symAx      map[string][]*Term
	recs       map[string]*recInfo
	globals    map[*ssa.Global]int
	rpoCache   map[*ssa.Function]map[*ssa.BasicBlock]int
	loopCache  map[*ssa.Function]*fnLoops
	trivial    int
	fns        map[string]*ssa.Function // contract key -> function
	writeMemo  map[*ssa.Function]*wset
	used       map[string]bool // contracts used by the property being checked
	usedFns    map[string]*ssa.Function
	inlined    map[string]bool
}

func LoadProgram(repo string, specs *SpecFile) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax,
		Dir:  repo,
		Env:  os.Environ(),
	}
	pats := []string{"./..."}
	seen := map[string]bool{}
	for _, k := range sortedKeys(specs.Imports) {
		p := specs.Imports[k]
		if strings.HasPrefix(p, "github.com/ikawaha/kagome/") || seen[p] {
			continue
		}
		if strings.HasPrefix(p, "github.com/ikawaha/kagome-dict") {
			seen[p] = true
			pats = append(pats, p)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	sp, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	sp.Build()
	p := &Program{specs: specs, ssa: sp, pkgs: map[string]*types.Package{}, fset: sp.Fset, keyTypes: map[string]types.Type{}, symAx: map[string][]*Term{}, recs: map[string]*recInfo{}, globals: map[*ssa.Global]int{}, loopCache: map[*ssa.Function]*fnLoops{}, fns: map[string]*ssa.Function{}, writeMemo: map[*ssa.Function]*wset{}}
	for _, k := range sp.AllPackages() {
		p.pkgs[k.Pkg.Path()] = k.Pkg
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		p.fns[fn.String()] = fn
	}
	// globals in a stable order
	var gs []*ssa.Global
	for _, k := range sp.AllPackages() {
		for _, m := range k.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		p.globalRef(g)
	}
	return p, nil
}

func (p *Program) shortFn(fn *ssa.Function) string { return shortKey(fn.String()) }

func (p *Program) noteUse(x *Exec, con *Contract, fn *ssa.Function) {
	if p.used == nil {
		return
	}
	p.used[con.Key] = true
	if fn != nil {
		p.usedFns[fn.String()] = fn
	}
}
func (p *Program) noteInlined(x *Exec, fn *ssa.Function) {
	if p.inlined != nil {
		p.inlined[p.shortFn(fn)] = true
	}
}

// poolKey (followed by a type) is a ghost heap component: which objects were taken from a pool and not given back.
const poolKey = "pool:"

// typeOfKey finds the Go type of a heap component named in a modifies clause.
func (p *Program) typeOfKey(k string) types.Type {
	if strings.HasPrefix(k, poolKey) {
		return types.Typ[types.Bool]
	}
	if strings.HasPrefix(k, "mem:") {
		return p.typeNamed(strings.TrimPrefix(k, "mem:"), k)
	}
	i := strings.LastIndex(k, ".")
	if i > 0 {
		for _, path := range sortedKeys(p.pkgs) {
			pkg := p.pkgs[path]
			for _, n := range pkg.Scope().Names() {
				if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
					if s, ok := isStruct(tn.Type()); ok && shortType(tn.Type()) == k[:i] {
						for j := 0; j < s.NumFields(); j++ {
							if s.Field(j).Name() == k[i+1:] {
								return s.Field(j).Type()
							}
						}
					}
				}
			}
		}
	}
	panic(unresolved{k, "modifies"})
}

// typeNamed parses the type names shortType prints.
func (p *Program) typeNamed(n, k string) types.Type {
	switch {
	case strings.HasPrefix(n, "[]"):
		return types.NewSlice(p.typeNamed(n[2:], k))
	case strings.HasPrefix(n, "*"):
		return types.NewPointer(p.typeNamed(n[1:], k))
	}
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	for _, path := range sortedKeys(p.pkgs) {
		pkg := p.pkgs[path]
		for _, m := range pkg.Scope().Names() {
			if tn, ok := pkg.Scope().Lookup(m).(*types.TypeName); ok && shortType(tn.Type()) == n {
				return tn.Type()
			}
		}
	}
	panic(unresolved{k, "modifies"})
}

// ---------- syntactic write sets ----------

type wset struct {
	keys  map[string]types.Type
	ghost map[string]bool
	alloc bool
}

func (p *Program) writes(fn *ssa.Function) *wset {
	if w, ok := p.writeMemo[fn]; ok {
		return w
	}
	w := &wset{keys: map[string]types.Type{}, ghost: map[string]bool{}}
	p.writeMemo[fn] = w
	for {
		n := len(w.keys) + len(w.ghost)
		al := w.alloc
		p.scanWrites(fn, w, map[*ssa.Function]bool{})
		if len(w.keys)+len(w.ghost) == n && w.alloc == al {
			break
		}
	}
	return w
}

func (w *wset) addLeafs(t types.Type) {
	if _, ok := t.Underlying().(*types.Array); ok {
		t = t.Underlying().(*types.Array).Elem()
	}
	for _, lf := range leafs(heapAddr(mk("r", SRef), t)) {
		w.keys[lf.Key] = lf.Typ
	}
}

func (p *Program) scanWrites(fn *ssa.Function, w *wset, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if in.Heap {
					w.alloc = true
					w.addLeafs(deref(in.Type()))
				} else if _, ok := deref(in.Type()).Underlying().(*types.Array); ok {
					w.alloc = true
					w.addLeafs(deref(in.Type()))
				}
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					st := deref(a.X.Type())
					s, _ := isStruct(st)
					ft := s.Field(a.Field).Type()
					if _, ok := isStruct(ft); ok {
						w.addLeafs(ft)
					} else {
						w.keys[fieldKey(st, s, a.Field)] = ft
					}
				case *ssa.Alloc:
				default:
					w.addLeafs(deref(in.Addr.Type()))
				}
			case *ssa.MapUpdate:
				mt := in.Map.Type().Underlying().(*types.Map)
				w.keys[mapDomKey(mt)] = &mapDomType{m: mt}
				if !isEmptyStruct(mt.Elem()) {
					w.keys[mapValKey(mt)] = &mapValType{m: mt}
				}
			case *ssa.MakeMap:
				mt := in.Type().Underlying().(*types.Map)
				w.alloc = true
				w.keys[mapDomKey(mt)] = &mapDomType{m: mt}
			case *ssa.MakeSlice:
				w.alloc = true
				w.addLeafs(in.Type().Underlying().(*types.Slice).Elem())
			case *ssa.Convert:
				if s, ok := in.Type().Underlying().(*types.Slice); ok {
					w.alloc = true
					w.addLeafs(s.Elem())
				}
			case *ssa.MakeClosure:
				p.scanWrites(in.Fn.(*ssa.Function), w, seen)
			case ssa.CallInstruction:
				p.scanCall(in.Common(), w, seen)
			}
		}
	}
}

func (p *Program) scanCall(c *ssa.CallCommon, w *wset, seen map[*ssa.Function]bool) {
	t := p.target(c, nil)
	switch {
	case t.builtin != "":
		switch t.builtin {
		case "append", "copy":
			w.alloc = true
			w.addLeafs(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		case "delete":
			mt := c.Args[0].Type().Underlying().(*types.Map)
			w.keys[mapDomKey(mt)] = &mapDomType{m: mt}
		}
	case t.inline != nil:
		p.scanWrites(t.inline, w, seen)
	case t.con != nil:
		if t.fn == nil && !c.IsInvoke() {
			w.ghost["ncalls"] = true
		}
		if t.con.Pure {
			return
		}
		if t.fn != nil && p.inRepo(t.fn) && !t.con.Extern && t.con.Trusted == "" {
			o := p.writes(t.fn)
			for k, v := range o.keys {
				if !(t.con.Quiet && quietKey(k, v)) {
					w.keys[k] = v
				}
			}
			for g := range o.ghost {
				w.ghost[g] = true
			}
			w.alloc = w.alloc || o.alloc
		}
		for _, m := range t.con.Mods {
			if !m.in(p.prop) {
				continue
			}
			if m.Fresh {
				w.alloc = true
			}
			for _, k := range m.Keys {
				switch {
				case strings.HasPrefix(k, "ghost:"):
					w.ghost[strings.TrimPrefix(k, "ghost:")] = true
				case k == "next":
					w.alloc = true
				case strings.HasSuffix(k, "*"):
					for _, kk := range sortedKeys(p.keyTypes) {
						if matchKeys([]string{k}, kk) {
							w.keys[kk] = p.keyTypes[kk]
						}
					}
				default:
					if ty, ok := p.keyTypes[k]; ok {
						w.keys[k] = ty
					} else {
						w.keys[k] = p.typeOfKey(k)
					}
				}
			}
		}
	}
}

// ---------- loop ordinals ----------

func (p *Program) ordinals(fn *ssa.Function, path string, ord map[string]int, n *int, stack []*ssa.Function) {
	for _, s := range stack {
		if s == fn {
			return
		}
	}
	stack = append(stack, fn)
	fl := p.fnLoops(fn)
	type item struct {
		blk, size, idx int
		loop           *loopInfo
		instr          ssa.CallInstruction
	}
	var items []item
	for _, l := range fl.list {
		m := l.header.Index
		for b := range l.body {
			if b.Index < m {
				m = b.Index
			}
		}
		items = append(items, item{blk: m, size: len(l.body), idx: -1, loop: l})
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				items = append(items, item{blk: b.Index, idx: i, instr: c})
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		if a.blk != b.blk {
			return a.blk < b.blk
		}
		if a.idx != b.idx {
			return a.idx < b.idx
		}
		return a.size > b.size
	})
	for _, it := range items {
		if it.loop != nil {
			ord[fmt.Sprintf("%s#%d", path, it.loop.header.Index)] = *n
			*n++
			continue
		}
		c := it.instr.Common()
		// closures bound to local variables
		var clo *Closure
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = &Closure{Fn: mc.Fn.(*ssa.Function)}
		}
		t := p.target(c, clo)
		f := &Frame{path: path, block: it.instr.Block(), idx: it.idx}
		if t.con != nil && t.con.Iter != nil {
			key := fmt.Sprintf("%s/iter@%d.%d", f.path, f.block.Index, f.idx)
			ord[key] = *n
			*n++
			args := c.Args
			if t.con.Iter.Cb < len(args) {
				switch mc := args[t.con.Iter.Cb].(type) {
				case *ssa.MakeClosure:
					p.ordinals(mc.Fn.(*ssa.Function), key+"/cb", ord, n, stack)
				case *ssa.Function:
					p.ordinals(mc, key+"/cb", ord, n, stack)
				}
			}
			continue
		}
		if t.inline != nil {
			p.ordinals(t.inline, fmt.Sprintf("%s/%s@%d.%d", f.path, t.inline.Name(), f.block.Index, f.idx), ord, n, stack)
		}
	}
}

// ---------- verification of one function ----------

type FnResult struct {
	Key         string
	Obls        []*Obligation
	Unsupported string // reason, if the function left the supported subset
	Probes      []*Obligation
	Loops       int
	Inlined     []string
}

func (p *Program) verifyFn(con *Contract, fn *ssa.Function, prop string) *FnResult {
	r := p.verifyFn1(con, fn, prop, false)
	if r == nil {
		r = p.verifyFn1(con, fn, prop, true)
	}
	return r
}

func (p *Program) verifyFn1(con *Contract, fn *ssa.Function, prop string, merging bool) (res *FnResult) {
	res = &FnResult{Key: con.Key}
	x := &Exec{merging: merging, prog: p, prop: prop, fn: fn, con: con, params: map[string]Val{}, loopOrd: map[string]int{}, safety: prop == "C06"}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case manyPaths:
				res = nil
				return
			case unsupported:
				res.Unsupported = e.msg
			case unresolved:
				res.Unsupported = fmt.Sprintf("%s: no %q in the code", e.pos, e.name)
			case specErr:
				res.Unsupported = "contract error: " + e.msg
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(e)
				}
				if os.Getenv("GVC_DEBUG") != "" {
					debug.PrintStack()
				}
				res.Unsupported = fmt.Sprintf("internal: %v", e)
			}
			res.Obls = x.obls
		}
	}()
	n := 0
	p.ordinals(fn, "", x.loopOrd, &n, nil)
	res.Loops = n
	if n != len(con.Loops) {
		unsup("the function has %d loops, the contract %d", n, len(con.Loops))
	}
	if len(fn.Params) != len(con.Params) {
		unsup("the function has %d parameters, the contract %d", len(fn.Params), len(con.Params))
	}
	st := &State{heap: map[string]*Term{}, next: mk("next0", SInt), cells: map[*Cell]cellState{}, ghost: map[string]*Term{}}
	st.assume(Lt(IntLit(int64(len(p.globals)+1)), st.next))
	f := x.newFrame(fn, "")
	st.frames = []*Frame{f}
	x.entry = x.snapshot(st)
	for i, q := range fn.Params {
		v := x.freshVal(st, "p_"+con.Params[i], q.Type())
		f.env[q] = v
		x.params[con.Params[i]] = v
	}
	for _, fv := range fn.FreeVars {
		unsup("closure %s under contract", fv.Name())
	}
	e := x.env0(st)
	x.specSt = st
	for _, l := range con.Lets {
		v := named(st, l.Name, e.force(e.eval(l.E)))
		e.vars[l.Name] = v
		x.params[l.Name] = v
	}
	for _, r := range con.Requires {
		if r.has(prop) {
			st.assume(e.Bool(r.E))
		}
	}
	x.run(st)
	res.Obls = x.obls
	for i, pc := range x.exits {
		res.Probes = append(res.Probes, &Obligation{Fn: p.shortFn(fn), Kind: "probe", Name: fmt.Sprintf("exit%d", i), Assumes: pc, Goal: False, Expect: "sat"})
	}
	return res
}

// lemmaObls generates the obligations of the lemmas of the specification.
func (p *Program) lemmaObls(prop string) (obls []*Obligation, err error) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case specErr:
				err = fmt.Errorf("%s", e.msg)
			case unresolved:
				err = fmt.Errorf("%s: %s", e.pos, e.name)
			case unsupported:
				err = fmt.Errorf("%s", e.msg)
			default:
				panic(e)
			}
		}
	}()
	p.lemmaOn = true
	defer func() { p.lemmaOn = false }()
	for li, l := range p.specs.Lemmas {
		if !(&Clause{Labels: l.Labels}).has(prop) || l.Axiom != "" {
			continue
		}
		p.curLemma = li
		x := &Exec{prog: p, prop: prop}
		st := &State{heap: map[string]*Term{}, next: mk("next0", SInt), cells: map[*Cell]cellState{}, ghost: map[string]*Term{}}
		hv := x.view(st)
		// the second heap of two-state lemmas
		ov := &HeapView{next: mk("next1", SInt), get: func(key string, typ types.Type) *Term {
			p.keyTypes[key] = typ
			t := mk(smtSym("H1:"+key), arrSort(sortOfKey(key, typ)))
			p.heapWF(t, key, typ, mk("next1", SInt))
			return t
		}}
		vars := map[string]Val{}
		for _, q := range l.Params {
			vars[q.Name] = x.freshVal(st, "l_"+q.Name, p.resolveType(q.Type))
		}
		e := &Env{x: x, prog: p, cur: hv, old: ov, vars: vars}
		for _, r := range l.Requires {
			st.assume(e.Bool(r))
		}
		if l.Induct != nil {
			m := e.Int(l.Induct)
			p.curMeasure = m
			// induction hypothesis for smaller measures, same heap
			iv := map[string]Val{}
			var bound []*Term
			for _, q := range l.Params {
				t := p.resolveType(q.Type)
				var ts []*Term
				for j, s := range flatSorts(t) {
					c := mk(fmt.Sprintf("ih_%s?%d", q.Name, j), s)
					ts = append(ts, c)
					bound = append(bound, c)
				}
				v, _ := unflat(t, ts)
				iv[q.Name] = v
			}
			ie := &Env{x: x, prog: p, cur: hv, old: ov, vars: iv}
			var pre, post []*Term
			for _, r := range l.Requires {
				pre = append(pre, ie.Bool(r))
			}
			for _, r := range l.Ensures {
				post = append(post, ie.Bool(r))
			}
			im := ie.Int(l.Induct)
			pre = append(pre, Le(IntLit(0), im), Lt(im, m))
			var pats [][]*Term
			for _, ps := range l.Pats {
				var q []*Term
				for _, pe := range ps {
					q = append(q, ie.flat(pe, ie.eval(pe))...)
				}
				pats = append(pats, q)
			}
			// the hypothesis speaks about unfolded occurrences, which carry no fuel
			st.assume(p.noFuel(Forall(bound, pats, Implies(And(pre...), And(post...)))))
			if l.Induct.Op == "ident" {
				p.directIH(x, st, hv, ov, l, vars)
			}
		}
		for i, u := range l.Uses {
			g := e.Bool(u)
			if p.isLemmaExpr(u) {
				st.assume(g)
				continue
			}
			obls = append(obls, &Obligation{Fn: "lemma " + l.Name, Kind: "lemma", Name: fmt.Sprintf("use%d", i), Pos: l.Pos, Assumes: st.pc[:len(st.pc):len(st.pc)], Goal: g})
			st.assume(g)
		}
		for i, en := range l.Ensures {
			obls = append(obls, &Obligation{Fn: "lemma " + l.Name, Kind: "lemma", Name: fmt.Sprintf("ensures%d", i), Pos: l.Pos, Assumes: st.pc[:len(st.pc):len(st.pc)], Goal: e.Bool(en)})
		}
	}
	return obls, nil
}

// directIH states the hypothesis for the predecessor of the induction
// variable, the other parameters unchanged: requirements that do not mention
// the variable hold already.
func (p *Program) directIH(x *Exec, st *State, hv, ov *HeapView, l *Lemma, vars map[string]Val) {
	v, ok := vars[l.Induct.Name]
	if !ok || v.T == nil {
		return
	}
	iv := map[string]Val{}
	for k, w := range vars {
		iv[k] = w
	}
	prev := Sub(v.T, IntLit(1))
	iv[l.Induct.Name] = Val{T: prev, Typ: v.Typ}
	e := &Env{x: x, prog: p, cur: hv, old: ov, vars: vars}
	ie := &Env{x: x, prog: p, cur: hv, old: ov, vars: iv}
	pre := []*Term{Le(IntLit(0), prev)}
	for _, r := range l.Requires {
		save := freshCtr
		a := e.Bool(r)
		freshCtr = save
		if b := ie.Bool(r); b.String() != a.String() {
			pre = append(pre, b)
		}
	}
	var post []*Term
	for _, r := range l.Ensures {
		post = append(post, ie.Bool(r))
	}
	st.assume(p.noFuel(Implies(And(pre...), And(post...))))
}

// noFuel replaces recursive functions by their versions that do not unfold.
func (p *Program) noFuel(t *Term) *Term {
	for _, n := range sortedKeys(p.recs) {
		if r := p.recs[n].r; r.E != nil {
			t = renameSym(t, fmt.Sprintf("%s$%d", n, r.Fuel), n+"$0")
		}
	}
	return t
}

// lemmaAxiom is the exported form of a lemma: quantified over parameters and the heap components it reads.
func (p *Program) lemmaAxiom(l *Lemma) *Term {
	var bound []*Term
	vars := map[string]Val{}
	for _, q := range l.Params {
		t := p.resolveType(q.Type)
		var ts []*Term
		for j, s := range flatSorts(t) {
			c := mk(fmt.Sprintf("lx_%s?%d", q.Name, j), s)
			ts = append(ts, c)
			bound = append(bound, c)
		}
		v, _ := unflat(t, ts)
		vars[q.Name] = v
	}
	hv := map[string]*Term{}
	mkView := func(pre string) *HeapView {
		return &HeapView{next: mk("next0", SInt), get: func(key string, typ types.Type) *Term {
			p.keyTypes[key] = typ
			if t, ok := hv[pre+key]; ok {
				return t
			}
			t := mk(smtSym(pre+"?"+key), arrSort(sortOfKey(key, typ)))
			hv[pre+key] = t
			return t
		}}
	}
	e := &Env{prog: p, cur: mkView("hx"), old: mkView("hy"), vars: vars}
	var pre, post []*Term
	for _, r := range l.Requires {
		pre = append(pre, e.Bool(r))
	}
	for _, r := range l.Ensures {
		post = append(post, e.Bool(r))
	}
	var pats [][]*Term
	for _, ps := range l.Pats {
		var q []*Term
		for _, pe := range ps {
			q = append(q, e.flat(pe, e.eval(pe))...)
		}
		pats = append(pats, q)
	}
	for _, k := range sortedKeys(hv) {
		bound = append(bound, hv[k])
	}
	for _, q := range pats {
		var in strings.Builder
		for _, t := range q {
			in.WriteString(t.String() + " ")
		}
		for _, b := range bound {
			if !strings.Contains(in.String(), b.String()) {
				panic(specErr{fmt.Sprintf("%s: a trigger of lemma %s does not mention %s", l.Pos, l.Name, b)})
			}
		}
	}
	return Forall(bound, pats, Implies(And(pre...), And(post...)))
}
