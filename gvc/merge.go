package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging of the symbolic states that meet at a join point. Without it a function with many
// branches in a row is explored once per path; with it once per block (functions with few paths
// are explored path by path: their obligations are simpler).

const mergeAbove = 400 // obligations of one function

var mergeDebug = os.Getenv("GVC_MERGE") != ""

type manyPaths struct{}

// joins: blocks with several forward predecessors
func (x *Exec) isJoin(fn *ssa.Function, to *ssa.BasicBlock) bool {
	n := 0
	for _, p := range to.Preds {
		if !to.Dominates(p) {
			n++
		}
	}
	return n > 1
}

func (x *Exec) park(st *State) { x.parked = append(x.parked, st) }

func stateKey(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%s|%p|%d.%d|%d|%p|", f.path, f.fn, f.block.Index, f.idx, len(f.defers), f.iter)
		for _, k := range sortedKeys(f.loops) {
			fmt.Fprintf(&b, "%s=%p,", k, f.loops[k])
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "%p,", d.call)
		}
		fmt.Fprintf(&b, "%v;", f.onRet != nil)
	}
	return b.String()
}

func (p *Program) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if m, ok := p.rpoCache[fn]; ok {
		return m
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			visit(s)
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	if p.rpoCache == nil {
		p.rpoCache = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	p.rpoCache[fn] = m
	return m
}

// before orders parked states: a state that may still lead to the place of another comes first.
func (x *Exec) before(a, b *State) bool {
	for i := 0; i < len(a.frames) && i < len(b.frames); i++ {
		f, g := a.frames[i], b.frames[i]
		if f.fn != g.fn {
			return false
		}
		if len(f.loops) != len(g.loops) {
			return len(f.loops) > len(g.loops)
		}
		if f.block != g.block {
			r := x.prog.rpo(f.fn)
			return r[f.block] < r[g.block]
		}
		if f.idx != g.idx {
			return f.idx < g.idx
		}
	}
	return len(a.frames) > len(b.frames)
}

// unpark takes the next group of parked states, merged where possible.
func (x *Exec) unpark() []*State {
	best := x.parked[0]
	for _, s := range x.parked[1:] {
		if x.before(s, best) {
			best = s
		}
	}
	key := stateKey(best)
	var group, rest []*State
	for _, s := range x.parked {
		if stateKey(s) == key {
			group = append(group, s)
		} else {
			rest = append(rest, s)
		}
	}
	x.parked = rest
	if mergeDebug {
		f := best.top()
		fmt.Fprintf(os.Stderr, "unpark %s block %d.%d (%s) frames %d dry %d: %d of %d states\n", f.fn.Name(), f.block.Index, f.idx, f.block.Comment, len(best.frames), x.dry, len(group), len(group)+len(rest))
	}
	if len(group) > 1 {
		if m := x.merge(group); m != nil {
			return []*State{m}
		}
	}
	return group
}

// resume continues a parked state.
func (x *Exec) resume(st *State) *State {
	f := st.top()
	to := f.pendTo
	if to == nil {
		return st
	}
	if li, ok := x.loops(f.fn).headers[to]; ok {
		return x.enterLoop(st, li, x.inLoopKey(f, to), nil, to)
	}
	x.edge(st, nil, to)
	return st
}

type mergeFail struct{}

func (x *Exec) merge(g []*State) (m *State) {
	work := make([]*State, len(g))
	for i := range g {
		work[i] = g[i].clone()
	}
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case mergeFail, unsupported:
				if mergeDebug {
					fmt.Fprintf(os.Stderr, "not merged: %v\n", e)
				}
				m = nil
			default:
				panic(e)
			}
		}
	}()
	g = work
	first := g[0]
	// cells
	var cells []*Cell
	for c := range first.cells {
		all := true
		for _, s := range g[1:] {
			if _, ok := s.cells[c]; !ok {
				all = false
			}
		}
		if all {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	for _, c := range cells {
		any := false
		for _, s := range g {
			any = any || s.cells[c].ref != nil
		}
		if any {
			for _, s := range g {
				if s.cells[c].ref == nil {
					x.term(s, Val{A: &Addr{Cell: c}})
				}
			}
		}
	}
	m = &State{heap: map[string]*Term{}, cells: map[*Cell]cellState{}, ghost: map[string]*Term{}}
	mg := &merger{x: x, g: g, m: m}
	for range g {
		mg.guard = append(mg.guard, fresh("path", SBool))
	}
	// registers first: this may materialise cells
	for i := range first.frames {
		fs := make([]*Frame, len(g))
		for j, s := range g {
			fs[j] = s.frames[i]
		}
		m.frames = append(m.frames, mg.frame(fs, i == len(first.frames)-1))
	}
	for _, c := range cells {
		any := false
		for _, s := range g {
			any = any || s.cells[c].ref != nil
		}
		if any {
			var refs []*Term
			for _, s := range g {
				if s.cells[c].ref == nil {
					x.term(s, Val{A: &Addr{Cell: c}})
				}
				refs = append(refs, s.cells[c].ref)
			}
			m.cells[c] = cellState{ref: mg.term(refs, "cell"), val: first.cells[c].val}
			continue
		}
		var vs []Val
		for _, s := range g {
			vs = append(vs, s.cells[c].val)
		}
		m.cells[c] = cellState{val: mg.val(vs, "cell_"+c.Name)}
	}
	var nx []*Term
	for _, s := range g {
		nx = append(nx, s.next)
	}
	m.next = mg.term(nx, "next")
	keys := map[string]bool{}
	ghosts := map[string]bool{}
	for _, s := range g {
		for k := range s.heap {
			keys[k] = true
		}
		for k := range s.ghost {
			ghosts[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		typ := x.prog.keyTypes[k]
		var ts []*Term
		for _, s := range g {
			ts = append(ts, x.heap(s, k, typ))
		}
		t := mg.term(ts, "H:"+k)
		if t != ts[0] {
			x.prog.heapWF(t, k, typ, m.next)
		}
		m.heap[k] = t
	}
	for _, k := range sortedKeys(ghosts) {
		var ts []*Term
		for _, s := range g {
			ts = append(ts, x.ghostVal(s, k))
		}
		m.ghost[k] = mg.term(ts, "G:"+k)
	}
	// path condition
	n := 0
	for n < len(first.pc) {
		same := true
		for _, s := range g[1:] {
			if n >= len(s.pc) || s.pc[n] != first.pc[n] {
				same = false
			}
		}
		if !same {
			break
		}
		n++
	}
	m.pc = append([]*Term{}, first.pc[:n]...)
	m.assume(Or(append([]*Term{}, mg.guard...)...))
	for i, s := range g {
		for _, t := range s.pc[n:] {
			m.assume(Implies(mg.guard[i], t))
		}
	}
	m.assume(mg.facts...)
	return m
}

type merger struct {
	x     *Exec
	g     []*State
	m     *State
	guard []*Term
	facts []*Term
}

func (mg *merger) term(ts []*Term, name string) *Term {
	same := true
	for _, t := range ts[1:] {
		if t.Sort != ts[0].Sort {
			panic(mergeFail{})
		}
		same = same && eqT(t, ts[0])
	}
	if same {
		return ts[0]
	}
	v := fresh("m_"+name, ts[0].Sort)
	for i, t := range ts {
		mg.facts = append(mg.facts, Implies(mg.guard[i], Eq(v, t)))
	}
	return v
}

func sameAddr(a, b *Addr) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Cell != b.Cell || a.Key != b.Key || len(a.Path) != len(b.Path) {
		return false
	}
	for i := range a.Path {
		if a.Path[i] != b.Path[i] {
			return false
		}
	}
	if a.Cell != nil {
		return true
	}
	return eqT(a.Ref, b.Ref) && types.Identical(a.Typ, b.Typ)
}

func (mg *merger) val(vs []Val, name string) Val {
	v := vs[0]
	if v.Fields != nil || v.IsTup {
		r := v
		r.Fields = make([]Val, len(v.Fields))
		for i := range v.Fields {
			var fs []Val
			for _, w := range vs {
				if len(w.Fields) != len(v.Fields) {
					panic(mergeFail{})
				}
				fs = append(fs, w.Fields[i])
			}
			r.Fields[i] = mg.val(fs, name)
		}
		return r
	}
	same := true
	for _, w := range vs[1:] {
		switch {
		case v.It != nil || w.It != nil:
			if v.It != w.It {
				panic(mergeFail{})
			}
		case v.Clo != nil || w.Clo != nil:
			if v.Clo == nil || w.Clo == nil || v.Clo != w.Clo && (v.Clo.Fn != w.Clo.Fn || len(v.Clo.Binds)+len(w.Clo.Binds) > 0) {
				same = false
			}
		case v.A != nil || w.A != nil:
			same = same && sameAddr(v.A, w.A)
		case v.T != nil && w.T != nil:
			same = same && eqT(v.T, w.T) && (v.Dyn == nil) == (w.Dyn == nil)
		default:
			panic(mergeFail{})
		}
	}
	if same {
		return v
	}
	if v.A != nil && v.A.Cell == nil {
		// heap locations of one kind
		ok := true
		var refs []*Term
		for _, w := range vs {
			if w.A == nil || w.A.Cell != nil || w.A.Key != v.A.Key || !types.Identical(w.A.Typ, v.A.Typ) {
				ok = false
				break
			}
			refs = append(refs, w.A.Ref)
		}
		if ok {
			a := *v.A
			a.Ref = mg.term(refs, name)
			return Val{A: &a, Typ: v.Typ}
		}
	}
	var ts []*Term
	for i, w := range vs {
		ts = append(ts, mg.x.term(mg.g[i], w))
	}
	t := mg.term(ts, name)
	return Val{T: t, Typ: v.Typ}
}

func (mg *merger) frame(fs []*Frame, top bool) *Frame {
	f := *fs[0]
	r := &f
	at := f.block
	if f.pendTo != nil {
		at = f.pendTo
	}
	r.env = map[ssa.Value]Val{}
	var regs []ssa.Value
	for v := range fs[0].env {
		regs = append(regs, v)
	}
	sort.Slice(regs, func(i, j int) bool {
		if regs[i].Name() != regs[j].Name() {
			return regs[i].Name() < regs[j].Name()
		}
		return regs[i].Pos() < regs[j].Pos()
	})
	try := func(v ssa.Value, vs []Val) {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case mergeFail, unsupported:
				default:
					panic(e)
				}
			}
		}()
		r.env[v] = mg.val(vs, v.Name())
	}
	for _, v := range regs {
		if in, ok := v.(ssa.Instruction); ok {
			if b := in.Block(); b != nil && b.Parent() == f.fn && b != at && !b.Dominates(at) {
				continue
			}
		}
		var vs []Val
		for _, g := range fs {
			w, ok := g.env[v]
			if !ok {
				break
			}
			vs = append(vs, w)
		}
		if len(vs) == len(fs) {
			try(v, vs)
		}
	}
	if f.pend != nil {
		r.pend = map[*ssa.Phi]Val{}
		for p := range fs[0].pend {
			var vs []Val
			for _, g := range fs {
				vs = append(vs, g.pend[p])
			}
			r.pend[p] = mg.val(vs, p.Name())
		}
	}
	r.names = map[string]ssa.Value{}
	for n, v := range fs[0].names {
		same := true
		for _, g := range fs[1:] {
			same = same && g.names[n] == v
		}
		if same {
			r.names[n] = v
		}
	}
	if f.pendTo != nil {
		for _, in := range f.pendTo.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if p.Comment != "" {
				r.names[p.Comment] = p
			}
		}
	}
	r.loops = map[string]*loopRun{}
	for k, v := range fs[0].loops {
		r.loops[k] = v
	}
	r.defers = append([]deferred(nil), f.defers...)
	for i := range r.defers {
		for j := range r.defers[i].args {
			var vs []Val
			for _, g := range fs {
				vs = append(vs, g.defers[i].args[j])
			}
			if j == 0 {
				r.defers[i].args = append([]Val(nil), r.defers[i].args...)
			}
			r.defers[i].args[j] = mg.val(vs, "defer")
		}
	}
	return r
}

// splitForall turns forall v. h => c1 && ... && cn into n goals.
func splitForall(t *Term) []*Term {
	body := t.Args[0]
	var hyp []*Term
	for body.Op == "=>" {
		hyp = append(hyp, body.Args[0])
		body = body.Args[1]
	}
	if body.Op != "and" {
		return nil
	}
	var r []*Term
	for _, c := range body.Args {
		r = append(r, Forall(t.Vars, t.Pats, Implies(And(hyp...), c)))
	}
	return r
}
