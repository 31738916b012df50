package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxPaths = 4000
const maxSteps = 2000000

// obligeKeep obliges g, making its ground conjuncts available to the obligations that follow.
func (x *Exec) obligeKeep(st *State, kind, name, pos string, g *Term) {
	if g.Op == "and" {
		for i, a := range g.Args {
			x.obligeKeep(st, kind, fmt.Sprintf("%s.%d", name, i), pos, a)
		}
		return
	}
	x.oblige(st, kind, name, pos, g)
	if !g.hasQuant() {
		st.assume(g)
	}
}

func (x *Exec) oblige(st *State, kind, name, pos string, goal *Term) {
	if x.dry > 0 || x.collect {
		return
	}
	if isTrue(goal) {
		x.prog.trivial++
	}
	if goal.Op == "and" && kind != "safety" {
		for i, g := range goal.Args {
			x.oblige(st, kind, fmt.Sprintf("%s.%d", name, i), pos, g)
		}
		return
	}
	if x.merging && goal.Op == "forall" && kind != "safety" {
		if gs := splitForall(goal); len(gs) > 1 {
			for i, g := range gs {
				x.oblige(st, kind, fmt.Sprintf("%s.%d", name, i), pos, g)
			}
			return
		}
	}
	if !x.merging && len(x.obls) > mergeAbove {
		panic(manyPaths{})
	}
	x.obls = append(x.obls, &Obligation{Fn: x.prog.shortFn(x.fn), Kind: kind, Name: name, Pos: pos, Assumes: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Hide: x.con.Hide})
}

// safe emits a safety obligation (property C06) and assumes the condition afterwards.
func (x *Exec) safe(st *State, what string, pos token.Pos, cond *Term) {
	if x.safety {
		x.oblige(st, "safety", what, posStr(x.prog.fset, pos), cond)
	}
	st.assume(cond)
}

func (x *Exec) env0(st *State) *Env {
	vars := map[string]Val{}
	for k, v := range x.params {
		vars[k] = v
	}
	return &Env{x: x, prog: x.prog, cur: x.view(st), old: x.entry, vars: vars}
}

// localEnv resolves local variables of the frames (innermost first) and the active loop counters.
func (x *Exec) localEnv(st *State, lr *loopRun) *Env {
	e := x.env0(st)
	x.specSt = st
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l.k != nil {
				e.vars[fmt.Sprintf("$k%d", l.ord)] = Val{T: l.k, Typ: tInt}
			}
		}
	}
	if lr != nil {
		e.vars["$k"] = Val{T: lr.k, Typ: tInt}
		e.loop = lr.entry
	}
	taken := map[ssa.Value]bool{}
	e.resolve = func(name string) (Val, bool) {
		for i := len(st.frames) - 1; i >= 0; i-- {
			if v, ok := x.lookupLocal(st, st.frames[i], name, lr); ok {
				return v, true
			}
		}
		_ = taken
		return Val{}, false
	}
	return e
}

func (x *Exec) lookupLocal(st *State, f *Frame, name string, lr *loopRun) (Val, bool) {
	if lr != nil && lr.header != nil && lr.header.Parent() == f.fn {
		for _, in := range lr.header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if p.Comment == name {
				if v, ok := f.env[p]; ok {
					return v, true
				}
			}
		}
	}
	// phis of other active loops (outer loops)
	var cand []ssa.Value
	for v := range f.env {
		switch v := v.(type) {
		case *ssa.Alloc:
			if v.Comment == name {
				cand = append(cand, v)
			}
		case *ssa.FreeVar:
			if v.Name() == name {
				cand = append(cand, v)
			}
		}
	}
	if len(cand) >= 1 {
		sort.Slice(cand, func(i, j int) bool { return cand[i].Pos() > cand[j].Pos() })
		v := f.env[cand[0]]
		if v.A != nil {
			return x.load(st, v.A), true
		}
		return v, true
	}
	if sv, ok := f.names[name]; ok {
		if v, ok := f.env[sv]; ok {
			return v, true
		}
		if c, ok := sv.(*ssa.Const); ok {
			return x.constVal(c), true
		}
	}
	for _, p := range f.fn.Params {
		if p.Name() == name {
			return f.env[p], true
		}
	}
	return Val{}, false
}

// ---------- driver ----------

func (x *Exec) run(st *State) {
	base := len(x.work)
	x.work = append(x.work, st)
	saved := x.parked
	x.parked = nil
	defer func() { x.parked = saved }()
	for len(x.work) > base || len(x.parked) > 0 {
		if len(x.work) == base {
			for _, s := range x.unpark() {
				if s = x.resume(s); s != nil {
					x.work = append(x.work, s)
				}
			}
			continue
		}
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		for s != nil {
			x.steps++
			if x.steps > maxSteps {
				unsup("too many steps")
			}
			s = x.step(s)
		}
	}
}

func (x *Exec) fork(st *State) {
	x.paths++
	if x.paths > maxPaths {
		if !x.merging {
			panic(manyPaths{})
		}
		unsup("too many paths")
	}
	x.work = append(x.work, st)
}

// step executes one instruction; it returns the state to continue with, or nil at the end of a path.
func (x *Exec) step(st *State) *State {
	f := st.top()
	in := f.block.Instrs[f.idx]
	switch in := in.(type) {
	case *ssa.DebugRef:
		if id, ok := in.Expr.(interface{ End() token.Pos }); ok && id != nil {
			if o := in.Object(); o != nil && !in.IsAddr {
				f.names[o.Name()] = in.X
			}
		}
	case *ssa.Phi:
		// evaluated on the edge
	case *ssa.Jump:
		return x.goTo(st, f.block.Succs[0])
	case *ssa.If:
		c := x.val(st, in.Cond).T
		if isTrue(c) {
			return x.goTo(st, f.block.Succs[0])
		}
		if isFalse(c) {
			return x.goTo(st, f.block.Succs[1])
		}
		o := st.clone()
		o.assume(Not(c))
		st.assume(c)
		if contradiction(o.pc) {
			return x.goTo(st, f.block.Succs[0])
		}
		if contradiction(st.pc) {
			return x.goTo(o, o.top().block.Succs[1])
		}
		if s2 := x.goTo(o, o.top().block.Succs[1]); s2 != nil {
			x.fork(s2)
		}
		return x.goTo(st, f.block.Succs[0])
	case *ssa.Return:
		return x.doReturn(st, in)
	case *ssa.Panic:
		if x.safety {
			x.oblige(st, "safety", "explicit panic is unreachable", posStr(x.prog.fset, in.Pos()), False)
		}
		return nil
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return x.call(st, nil, d.call, d.fnv, d.args, in.Pos(), true)
		}
	case *ssa.Defer:
		fnv, args := x.callArgs(st, &in.Call)
		f.defers = append(f.defers, deferred{&in.Call, args, fnv})
	case *ssa.Call:
		fnv, args := x.callArgs(st, &in.Call)
		return x.call(st, in, &in.Call, fnv, args, in.Pos(), false)
	case *ssa.Store:
		p := x.val(st, in.Addr)
		v := x.val(st, in.Val)
		a := x.addrOf(st, p, deref(in.Addr.Type()))
		x.nilCheck(st, p, in.Pos())
		x.store(st, a, v)
	case *ssa.MapUpdate:
		x.mapUpdate(st, in)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("%T", in)
	default:
		v, ok := in.(ssa.Value)
		if !ok {
			unsup("instruction %T", in)
		}
		r := x.value(st, v)
		st.top().env[v] = r
	}
	f.idx++
	return st
}

// contradiction detects a literal and its negation in the path condition (cheap pruning).
func contradiction(pc []*Term) bool {
	if len(pc) == 0 {
		return false
	}
	last := pc[len(pc)-1]
	neg := Not(last).String()
	for _, p := range pc[:len(pc)-1] {
		if p.String() == neg {
			return true
		}
	}
	return false
}

func (x *Exec) nilCheck(st *State, p Val, pos token.Pos) {
	if p.A != nil {
		if p.A.Cell == nil {
			// derived address: checked when it was made
			return
		}
		return
	}
	x.safe(st, "nil dereference", pos, Not(Eq(p.T, nullRef)))
}

func (x *Exec) inLoopKey(f *Frame, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", f.path, b.Index)
}

// goTo transfers control along an edge, handling loop entry, back edges and loop exits.
func (x *Exec) goTo(st *State, to *ssa.BasicBlock) *State {
	f := st.top()
	from := f.block
	fl := x.loops(f.fn)
	// leaving loops
	for key, lr := range f.loops {
		if lr.header != nil && !lr.body[to] {
			delete(f.loops, key)
			if lr.dry && len(x.stopLoop) > 0 && x.stopLoop[len(x.stopLoop)-1] == key {
				return nil
			}
		}
	}
	if li, ok := fl.headers[to]; ok {
		key := x.inLoopKey(f, to)
		if lr, active := f.loops[key]; active {
			return x.backEdge(st, lr, key, from, to)
		}
		if x.merging && x.isJoin(f.fn, to) {
			return x.parkAt(st, from, to)
		}
		return x.enterLoop(st, li, key, from, to)
	}
	if x.merging && x.isJoin(f.fn, to) {
		return x.parkAt(st, from, to)
	}
	x.edge(st, from, to)
	return st
}

// parkAt lets the state wait for the others that reach block `to`.
func (x *Exec) parkAt(st *State, from, to *ssa.BasicBlock) *State {
	f := st.top()
	f.pend = x.phiVals(st, from, to)
	f.pendTo = to
	f.block = to
	f.idx = -1
	x.park(st)
	return nil
}

// edge evaluates the phis of block `to` for the edge from->to and moves there.
func (x *Exec) edge(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	vals := x.phiVals(st, from, to)
	for p, v := range vals {
		f.env[p] = v
		if p.Comment != "" {
			f.names[p.Comment] = p
		}
	}
	f.prev = from
	f.block = to
	f.idx = 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
}

func (x *Exec) phiVals(st *State, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	if f := st.top(); f.pendTo == to && from == nil {
		vals := f.pend
		f.pend, f.pendTo = nil, nil
		return vals
	}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(st, p.Edges[idx])
	}
	return vals
}

// ---------- loops ----------

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnLoops struct {
	headers map[*ssa.BasicBlock]*loopInfo
	list    []*loopInfo
}

func (x *Exec) loops(fn *ssa.Function) *fnLoops { return x.prog.fnLoops(fn) }

func (p *Program) fnLoops(fn *ssa.Function) *fnLoops {
	if l, ok := p.loopCache[fn]; ok {
		return l
	}
	l := &fnLoops{headers: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := l.headers[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					l.headers[s] = li
					l.list = append(l.list, li)
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[n] {
						continue
					}
					li.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	sort.Slice(l.list, func(i, j int) bool { return l.list[i].header.Index < l.list[j].header.Index })
	p.loopCache[fn] = l
	return l
}

// isRangeIndex recognises the hidden counter of a range loop.
func rangeIndexPhi(h *ssa.BasicBlock) (*ssa.Phi, *ssa.BinOp) {
	if h.Comment != "rangeindex.loop" {
		return nil, nil
	}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeindex" {
			for _, in2 := range h.Instrs {
				if b, ok := in2.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(p) {
					return p, b
				}
			}
		}
	}
	return nil, nil
}

func (x *Exec) loopSpec(f *Frame, key string) (*LoopSpec, int) {
	ord, ok := x.loopOrd[key]
	if !ok {
		unsup("loop %s has no ordinal", key)
	}
	if ord >= len(x.con.Loops) {
		if x.collect {
			return &LoopSpec{}, ord
		}
		unsup("loop #%d of %s (%s) has no invariant", ord, x.prog.shortFn(x.fn), posStr(x.prog.fset, f.fn.Pos()))
	}
	return x.con.Loops[ord], ord
}

func (x *Exec) enterLoop(st *State, li *loopInfo, key string, from, to *ssa.BasicBlock) *State {
	f := st.top()
	if x.collect {
		// one abstract pass: havoc everything the body may change is not needed to collect writes
		return x.enterLoopCollect(st, li, key, from, to)
	}
	spec, ord := x.loopSpec(f, key)
	init := x.phiVals(st, from, to)
	// pointers that live in phis must be terms
	for p, v := range init {
		if v.T == nil && v.A != nil {
			init[p] = Val{T: x.term(st, v), Typ: v.Typ}
		}
	}
	lr := &loopRun{spec: spec, ord: ord, header: to, body: li.body, k: IntLit(0), entry: x.snapshot(st)}
	if spec.Unr > 0 {
		lr.unr = spec.Unr
		f.loops[key] = lr
		x.edge(st, from, to)
		return st
	}
	// what does the body write?
	ws := x.dryRun(st, li, key, from, to)
	for _, c := range sortedCells(ws.mat) {
		if cs, ok := st.cells[c]; ok && cs.ref == nil {
			x.term(st, Val{A: &Addr{Cell: c}})
		}
	}
	lr.entry = x.snapshot(st)
	// establish
	if x.dry == 0 {
		tmp := st.clone()
		tf := tmp.top()
		for p, v := range init {
			tf.env[p] = v
		}
		tf.loops[key] = lr
		e := x.localEnv(tmp, lr)
		x.heads(tmp, e, spec)
		for i, inv := range spec.Invs {
			if inv.has(x.prop) {
				g := e.Bool(inv.E)
				x.obligeKeep(tmp, "inv-init", fmt.Sprintf("loop%d.inv%d", ord, i), inv.Pos, g)
			}
		}
	}
	for _, k := range sortedKeys(ws.keys) {
		if t := x.frameFormula(st, k); t != nil {
			x.oblige(st, "frame", "loopinit:"+k, x.con.Pos, t)
		}
	}
	// havoc
	x.havoc(st, ws, f)
	lr2 := *lr
	lr2.k = fresh("k", SInt)
	st.assume(Le(IntLit(0), lr2.k))
	f.loops[key] = &lr2
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		f.env[p] = x.freshVal(st, "phi_"+p.Comment, p.Type())
		if p.Comment != "" {
			f.names[p.Comment] = p
		}
		// counting variables are tied to the iteration count
		if step, ok := countingPhi(p, li); ok && init[p].T != nil {
			st.assume(Eq(f.env[p].T, Add(init[p].T, Mul(IntLit(step), lr2.k))))
		}
	}
	if rp, rb := rangeIndexPhi(to); rp != nil {
		// -1 <= index < len, and the increment does not overflow
		for _, in := range to.Instrs {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS && b.X == ssa.Value(rb) {
				if n, err := x.tryVal(st, b.Y); err == nil {
					st.assume(Le(IntLit(-1), f.env[rp].T), Lt(f.env[rp].T, n.T))
				}
			}
		}
	}
	x.havocIters(st, f, li, &lr2)
	f.prev = from
	f.block = to
	f.idx = 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
	e := x.localEnv(st, &lr2)
	for _, inv := range spec.Invs {
		if inv.has(x.prop) {
			st.assume(e.Bool(inv.E))
		}
	}
	x.heads(st, e, spec)
	x.assumeFrame(st, ws)
	for _, d := range spec.Decr {
		lr2.measure = append(lr2.measure, e.Int(d))
	}
	f.loops[key] = &lr2
	return st
}

// heads assumes the lemma instances named in the head clauses of a loop.
func (x *Exec) heads(st *State, e *Env, spec *LoopSpec) {
	for _, h := range spec.Head {
		if h.has(x.prop) {
			if !x.prog.isLemmaExpr(h.E) {
				unsup("%s: head takes lemma instances", h.Pos)
			}
			st.assume(e.Bool(h.E))
		}
	}
}

func (x *Exec) tryVal(st *State, v ssa.Value) (r Val, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return x.val(st, v), nil
}

// countingPhi recognises i := a; i += c.
func countingPhi(p *ssa.Phi, li *loopInfo) (int64, bool) {
	var step int64
	n := 0
	for i, pred := range p.Block().Preds {
		if !li.body[pred] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			return 0, false
		}
		s := c.Int64()
		switch b.Op {
		case token.ADD:
		case token.SUB:
			s = -s
		default:
			return 0, false
		}
		if n > 0 && s != step {
			return 0, false
		}
		step = s
		n++
	}
	return step, n > 0
}

func sortedCells(m map[*Cell]bool) []*Cell {
	var cs []*Cell
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	return cs
}

func (x *Exec) havoc(st *State, ws *writeSet, f *Frame) {
	if ws.next {
		n := fresh("next", SInt)
		st.assume(Le(st.next, n))
		st.next = n
		x.record(func(w *writeSet) { w.next = true })
	}
	for _, c := range sortedCells(ws.cells) {
		cs, ok := st.cells[c]
		if !ok || cs.ref != nil {
			continue
		}
		if cs.val.It != nil {
			continue
		}
		cs.val = x.freshVal(st, "cell_"+c.Name, c.Typ)
		st.cells[c] = cs
		cc := c
		x.record(func(w *writeSet) { w.cells[cc] = true })
	}
	for _, k := range sortedKeys(ws.keys) {
		x.havocHeap(st, k)
	}
	for _, g := range sortedKeys(ws.ghost) {
		x.setGhost(st, g, fresh("G:"+g, ghostSort(g)))
	}
}

// havocIters gives string iterators advanced by the loop the position of the iteration count.
func (x *Exec) havocIters(st *State, f *Frame, li *loopInfo, lr *loopRun) {
	for _, in := range li.header.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok || !nx.IsString {
			continue
		}
		it, ok := f.env[nx.Iter]
		if !ok || it.It == nil {
			continue
		}
		cs := st.cells[it.It.Cell]
		cs.val = Val{T: lr.k, Typ: tInt}
		st.cells[it.It.Cell] = cs
		st.assume(Le(lr.k, rcT(it.It.Str)))
	}
}

func rcT(s *Term) *Term { return mk("rc", SInt, s) }

// assumeFrame: what is outside the modifies clauses of the function is as at entry (proved at back edges and exits).
func (x *Exec) assumeFrame(st *State, ws *writeSet) {
	for _, k := range sortedKeys(ws.keys) {
		t := x.frameFormula(st, k)
		if t != nil {
			st.assume(t)
		}
		if k == "mem:uint8" && t != nil && !x.modsKey(k) {
			cur, old, sv := x.heap(st, k, x.prog.keyTypes[k]), x.entry.get(k, x.prog.keyTypes[k]), mk("s", SSlice)
			st.assume(Forall([]*Term{sv}, [][]*Term{{mk("bstr", SStr, cur, sv)}}, Implies(Lt(sBase(sv), x.entry.next), Eq(mk("bstr", SStr, cur, sv), mk("bstr", SStr, old, sv)))))
		}
	}
}

// modsKey: does the contract let the function change memory of component k older than the call?
func (x *Exec) modsKey(k string) bool {
	for _, m := range x.con.Mods {
		if (&Clause{Labels: m.Labels}).has(x.prop) && matchKeys(m.Keys, k) && !m.Fresh {
			return true
		}
	}
	return false
}

// frameFormula states that heap component k differs from the entry heap only where allowed.
func (x *Exec) frameFormula(st *State, k string) *Term {
	typ := x.prog.keyTypes[k]
	cur := x.heap(st, k, typ)
	old := x.entry.get(k, typ)
	if eqT(cur, old) {
		return nil
	}
	r := mk("r", SRef)
	allowed := []*Term{}
	e := x.env0(st)
	e.cur = x.entry
	e.vars["$r"] = Val{T: r, Typ: types.Typ[types.UnsafePointer]}
	for _, m := range x.con.Mods {
		if !(&Clause{Labels: m.Labels}).has(x.prop) || !matchKeys(m.Keys, k) || m.Fresh {
			continue
		}
		if m.E == nil {
			return nil
		}
		allowed = append(allowed, e.Bool(m.E))
	}
	a := mk("aid", SInt, r)
	return Forall([]*Term{r}, [][]*Term{{Select(cur, r)}}, Implies(And(Lt(a, x.entry.next), Not(Or(allowed...))), Eq(Select(cur, r), Select(old, r))))
}

func matchKeys(keys []string, k string) bool {
	for _, p := range keys {
		if p == k || strings.HasSuffix(p, "*") && strings.HasPrefix(k, strings.TrimSuffix(p, "*")) {
			return true
		}
	}
	return false
}

func (x *Exec) backEdge(st *State, lr *loopRun, key string, from, to *ssa.BasicBlock) *State {
	if lr.dry {
		if len(x.stopLoop) > 0 && x.stopLoop[len(x.stopLoop)-1] == key {
			return nil
		}
		return nil
	}
	if lr.unr > 0 {
		n := *lr
		n.unr--
		if n.unr == 0 {
			x.oblige(st, "unwind", fmt.Sprintf("loop%d", lr.ord), "", False)
			return nil
		}
		st.top().loops[key] = &n
		x.edge(st, from, to)
		return st
	}
	if x.dry > 0 || x.collect {
		return nil
	}
	vals := x.phiVals(st, from, to)
	f := st.top()
	// hints see the state before the phis are updated, with names bound to the new values
	for p, v := range vals {
		if v.T == nil && v.A != nil {
			v = Val{T: x.term(st, v), Typ: v.Typ}
		}
		f.env[p] = v
	}
	n := *lr
	n.k = Add(lr.k, IntLit(1))
	f.loops[key] = &n
	e := x.localEnv(st, &n)
	for i, h := range lr.spec.Hint {
		if h.has(x.prop) {
			g := e.Bool(h.E)
			if !x.prog.isLemmaExpr(h.E) {
				x.oblige(st, "hint", fmt.Sprintf("loop%d.hint%d", lr.ord, i), h.Pos, g)
			}
			st.assume(g)
		}
	}
	for i, inv := range lr.spec.Invs {
		if inv.has(x.prop) {
			g := e.Bool(inv.E)
			x.obligeKeep(st, "inv-step", fmt.Sprintf("loop%d.inv%d", lr.ord, i), inv.Pos, g)
		}
	}
	x.obligeFrame(st, "loop")
	if x.safety {
		if len(lr.spec.Decr) > 0 {
			var now []*Term
			for _, d := range lr.spec.Decr {
				now = append(now, e.Int(d))
			}
			x.oblige(st, "decreases", fmt.Sprintf("loop%d", lr.ord), "", lexLess(now, lr.measure))
		} else if !terminatesByForm(to) {
			unsup("loop #%d of %s has no decreases clause", lr.ord, x.prog.shortFn(x.fn))
		}
	}
	return nil
}

func lexLess(now, before []*Term) *Term {
	var alts []*Term
	var eqs []*Term
	for i := range now {
		alts = append(alts, And(append(append([]*Term{}, eqs...), Lt(now[i], before[i]), Le(IntLit(0), before[i]))...))
		eqs = append(eqs, Eq(now[i], before[i]))
	}
	return Or(alts...)
}

func terminatesByForm(h *ssa.BasicBlock) bool {
	if p, _ := rangeIndexPhi(h); p != nil {
		return true
	}
	if h.Comment == "rangeiter.loop" {
		return true
	}
	return false
}

func (x *Exec) obligeFrame(st *State, what string) {
	if x.dry > 0 || x.collect {
		return
	}
	for _, k := range sortedKeys(st.heap) {
		if t := x.frameFormula(st, k); t != nil {
			x.oblige(st, "frame", what+":"+k, x.con.Pos, t)
		}
	}
}

// dryRun executes the loop body abstractly to find what it writes.
func (x *Exec) dryRun(st *State, li *loopInfo, key string, from, to *ssa.BasicBlock) *writeSet {
	total := newWriteSet()
	for iter := 0; iter < 6; iter++ {
		ws := newWriteSet()
		s := st.clone()
		saveRec := x.rec
		x.rec = nil
		for c := range total.mat {
			if cs, ok := s.cells[c]; ok && cs.ref == nil {
				x.term(s, Val{A: &Addr{Cell: c}})
			}
		}
		x.havoc(s, total, s.top())
		f := s.top()
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.env[p] = x.freshVal(s, "dry", p.Type())
		}
		lr := &loopRun{header: to, body: li.body, dry: true, k: fresh("dryk", SInt), entry: x.snapshot(s), spec: &LoopSpec{}, ord: x.loopOrd[key]}
		f.loops[key] = lr
		x.havocIters(s, f, li, lr)
		f.prev, f.block, f.idx = from, to, 0
		for _, in := range to.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			f.idx++
		}
		x.rec = []*writeSet{ws}
		x.subRun(s, key)
		x.rec = saveRec
		if !total.merge(ws) {
			break
		}
	}
	x.recordWS(total)
	return total
}

func (x *Exec) recordWS(t *writeSet) {
	x.record(func(w *writeSet) { w.merge(t) })
}

func (w *writeSet) merge(o *writeSet) bool {
	ch := false
	for k := range o.keys {
		if !w.keys[k] {
			w.keys[k] = true
			ch = true
		}
	}
	for k := range o.cells {
		if !w.cells[k] {
			w.cells[k] = true
			ch = true
		}
	}
	for k := range o.mat {
		if !w.mat[k] {
			w.mat[k] = true
			ch = true
		}
	}
	for k := range o.ghost {
		if !w.ghost[k] {
			w.ghost[k] = true
			ch = true
		}
	}
	if o.next && !w.next {
		w.next = true
		ch = true
	}
	return ch
}

// subRun explores from s in dry mode.
func (x *Exec) subRun(s *State, key string) {
	x.dry++
	x.stopLoop = append(x.stopLoop, key)
	saveWork := x.work
	savePaths := x.paths
	x.work = nil
	depth := len(s.frames)
	saveDepth := x.dryDepth
	x.dryDepth = depth
	x.run(s)
	x.dryDepth = saveDepth
	x.work = saveWork
	x.paths = savePaths
	x.stopLoop = x.stopLoop[:len(x.stopLoop)-1]
	x.dry--
}

func (x *Exec) enterLoopCollect(st *State, li *loopInfo, key string, from, to *ssa.BasicBlock) *State {
	f := st.top()
	f.pend, f.pendTo = nil, nil
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		f.env[p] = x.freshVal(st, "col", p.Type())
	}
	// cells written in the loop may have any value
	for c, cs := range st.cells {
		if cs.ref == nil && cs.val.It == nil && cs.val.Clo == nil && x.collectHavoc(c) {
			func() {
				defer func() { _ = recover() }()
				cs.val = x.freshVal(st, "col", c.Typ)
				st.cells[c] = cs
			}()
		}
	}
	lr := &loopRun{header: to, body: li.body, dry: true, k: fresh("colk", SInt), spec: &LoopSpec{}}
	f.loops[key] = lr
	x.havocIters(st, f, li, lr)
	f.prev, f.block, f.idx = from, to, 0
	for _, in := range to.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
	return st
}

func (x *Exec) collectHavoc(c *Cell) bool {
	switch c.Typ.Underlying().(type) {
	case *types.Basic, *types.Slice:
		return true
	}
	return false
}

// ---------- returns ----------

func (x *Exec) doReturn(st *State, in *ssa.Return) *State {
	f := st.top()
	var res Val
	switch len(in.Results) {
	case 0:
		res = Val{IsTup: true, Fields: []Val{}}
	case 1:
		res = x.val(st, in.Results[0])
	default:
		res = Val{IsTup: true, Typ: f.fn.Signature.Results()}
		for _, r := range in.Results {
			res.Fields = append(res.Fields, x.val(st, r))
		}
	}
	if f.onRet != nil && x.dry == 0 {
		f.onRet(st, res)
		return nil
	}
	if len(st.frames) == 1 || x.dry > 0 && len(st.frames) <= x.dryDepth && f.iter == nil {
		if x.dry > 0 {
			return nil
		}
		x.finish(st, f, res)
		return nil
	}
	it := f.iter
	st.frames = st.frames[:len(st.frames)-1]
	if it != nil {
		it.done(st)
		return nil
	}
	c := st.top()
	if f.rundef {
		return st // re-execute RunDefers
	}
	if f.call != nil {
		c.env[f.call] = res
	}
	c.idx++
	if x.merging && len(f.fn.Blocks) > 1 {
		x.park(st)
		return nil
	}
	return st
}

func (x *Exec) finish(st *State, f *Frame, res Val) {
	if x.collect {
		return
	}
	e := x.env0(st)
	x.specSt = st
	x.bindResults(e, x.con, res)
	le := x.localEnv(st, nil)
	for k, v := range e.vars {
		le.vars[k] = v
	}
	for i, h := range x.con.Hints {
		if h.has(x.prop) {
			g := le.Bool(h.E)
			if !x.prog.isLemmaExpr(h.E) {
				x.oblige(st, "hint", fmt.Sprintf("hint%d", i), h.Pos, g)
			}
			st.assume(g)
		}
	}
	for i, c := range x.con.Ensures {
		if c.has(x.prop) && c.Kind == "ensures" {
			x.oblige(st, "post", fmt.Sprintf("ensures%d", i), c.Pos, e.Bool(c.E))
		}
	}
	x.obligeFrame(st, "exit")
	x.exits = append(x.exits, st.pc[:len(st.pc):len(st.pc)])
	for _, y := range x.con.Yields {
		x.yield(st.clone(), e, y)
	}
}

// yield checks the contract of a function-valued result: the returned closure is called once
// with arbitrary arguments.
func (x *Exec) yield(st *State, e *Env, y *Contract) {
	v, ok := e.vars[y.Key]
	if !ok || v.Clo == nil {
		unsup("the result %s is not a known function", y.Key)
	}
	fn := v.Clo.Fn
	if len(fn.Params) != len(y.Params) || len(fn.Blocks) == 0 {
		unsup("the function %s has %d parameters, its contract %d", fn, len(fn.Params), len(y.Params))
	}
	x.prog.noteInlined(x, fn)
	nf := x.newFrame(fn, "/yield:"+y.Key)
	vars := map[string]Val{}
	for k, v := range e.vars {
		vars[k] = v
	}
	var args []Val
	for i, q := range fn.Params {
		a := x.freshVal(st, "y_"+y.Params[i], q.Type())
		args = append(args, a)
		vars[y.Params[i]] = a
	}
	x.bindFrame(st, nf, v.Clo, args)
	pre := x.snapshot(st)
	pe := &Env{x: x, prog: x.prog, cur: x.view(st), old: pre, vars: vars}
	x.specSt = st
	for _, r := range y.Requires {
		if r.has(x.prop) {
			st.assume(pe.Bool(r.E))
		}
	}
	nf.onRet = func(s *State, res Val) {
		qe := &Env{x: x, prog: x.prog, cur: x.view(s), old: pre, vars: map[string]Val{}}
		for k, v := range vars {
			qe.vars[k] = v
		}
		x.specSt = s
		x.bindResults(qe, y, res)
		for i, c := range y.Ensures {
			if c.has(x.prop) {
				x.oblige(s, "post", fmt.Sprintf("%s.ensures%d", y.Key, i), c.Pos, qe.Bool(c.E))
			}
		}
		for _, k := range sortedKeys(s.heap) {
			cur, old := s.heap[k], pre.get(k, x.prog.keyTypes[k])
			if eqT(cur, old) {
				continue
			}
			if g := modFormula(x, y, k, old, cur, pre, vars); g != nil {
				x.oblige(s, "frame", y.Key+":"+k, y.Pos, g)
			}
		}
		x.exits = append(x.exits, s.pc[:len(s.pc):len(s.pc)])
	}
	st.frames = append(st.frames, nf)
	x.fork(st)
}

func (x *Exec) bindResults(e *Env, c *Contract, res Val) {
	if len(c.Results) == 0 {
		if !res.IsTup {
			e.vars["result"] = res
		}
		return
	}
	if res.IsTup {
		for i, n := range c.Results {
			if i < len(res.Fields) {
				e.vars[n] = res.Fields[i]
			}
		}
		return
	}
	e.vars[c.Results[0]] = res
}
