package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Fn      string
	Kind    string // pre, post, inv-init, inv-step, hint, frame, safety, decreases, lemma
	Name    string
	Pos     string // position in the contract or the code
	Assumes []*Term
	Goal    *Term
	Hide    map[string]bool
	Expect  string // "" normal; "sat" for vacuity probes
}

type cellState struct {
	val Val
	ref *Term // non nil once materialised
}

type State struct {
	heap   map[string]*Term
	next   *Term
	cells  map[*Cell]cellState
	pc     []*Term
	frames []*Frame
	ghost  map[string]*Term
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fnv  Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	loops  map[string]*loopRun
	names  map[string]ssa.Value
	defers []deferred
	call   ssa.Value // call instruction in the caller receiving the result
	path   string
	iter   *iterRun // frame is a callback of an iteration
	rundef bool
	onRet  func(st *State, res Val) // end of a yielded function
	pend   map[*ssa.Phi]Val         // parked at the entry of pendTo
	pendTo *ssa.BasicBlock
}

type loopRun struct {
	spec    *LoopSpec
	ord     int
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	k       *Term
	entry   *HeapView
	measure []*Term
	dry     bool
	auto    func(st *State) []*Term
	unr     int
}

type iterRun struct {
	lr    *loopRun
	count *Term
	done  func(st *State) // called on normal return of the callback
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.names = make(map[string]ssa.Value, len(f.names))
	for k, v := range f.names {
		g.names[k] = v
	}
	g.loops = make(map[string]*loopRun, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	return &g
}

func (s *State) clone() *State {
	n := &State{next: s.next}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]cellState, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == nil || isTrue(t) {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		s.pc = append(s.pc, t)
	}
}

// HeapView gives access to a snapshot of the heap.
type HeapView struct {
	get   func(key string, typ types.Type) *Term
	next  *Term
	facts func(t *Term)
	ghost func(name string) *Term
}

type writeSet struct {
	keys  map[string]bool
	cells map[*Cell]bool
	mat   map[*Cell]bool
	next  bool
	ghost map[string]bool
}

func newWriteSet() *writeSet {
	return &writeSet{keys: map[string]bool{}, cells: map[*Cell]bool{}, mat: map[*Cell]bool{}, ghost: map[string]bool{}}
}

// Exec verifies one function.
type Exec struct {
	prog     *Program
	prop     string
	fn       *ssa.Function
	con      *Contract
	obls     []*Obligation
	exits    [][]*Term
	work     []*State
	entry    *HeapView
	params   map[string]Val
	dry      int
	rec      []*writeSet
	modCache map[string]bool
	loopOrd  map[string]int // path+header -> ordinal
	loopInfo map[*ssa.Function]*fnLoops
	written  map[string]bool
	steps    int
	paths    int
	sym      int
	stopLoop []string
	safety   bool
	collect  bool // only collecting the write set of a whole function
	inlined  map[string]bool
	specSt   *State
	dryDepth int
	merging  bool
	parked   []*State
}

var freshCtr int

func fresh(prefix, srt string) *Term {
	freshCtr++
	return mk(smtSym(fmt.Sprintf("%s!%d", prefix, freshCtr)), srt)
}

func (x *Exec) record(f func(w *writeSet)) {
	for _, w := range x.rec {
		f(w)
	}
}

// ---- heap ----

func (x *Exec) baseHeap(key string, typ types.Type) *Term {
	x.prog.keyTypes[key] = typ
	s := arrSort(sortOfKey(key, typ))
	t := mk(smtSym("H0:"+key), s)
	x.prog.heapWF(t, key, typ, mk("next0", SInt))
	return t
}

func sortOfKey(key string, typ types.Type) string {
	if m, ok := typ.(*mapDomType); ok {
		return "(Array " + sortOf(m.m.Key()) + " Bool)"
	}
	if m, ok := typ.(*mapValType); ok {
		return "(Array " + sortOf(m.m.Key()) + " " + sortOf(m.m.Elem()) + ")"
	}
	return sortOf(typ)
}

// pseudo types for map heaps
type mapDomType struct {
	types.Type
	m *types.Map
}
type mapValType struct {
	types.Type
	m *types.Map
}

func (p *Program) heapWF(arr *Term, key string, typ types.Type, next *Term) {
	if _, ok := p.symAx[arr.Op]; ok {
		return
	}
	p.symAx[arr.Op] = []*Term{}
	r := mk("r", SRef)
	var body *Term
	switch elemSort(arr.Sort) {
	case SSlice:
		body = mk("wfS", SBool, Select(arr, r), next)
	case SRef:
		if _, ok := typ.(*mapDomType); ok {
			return
		}
		a := mk("aid", SInt, Select(arr, r))
		body = And(Lt(a, next), Le(IntLit(0), a))
	case SInt:
		if _, ok := typ.(*mapValType); ok {
			return
		}
		lo, hi, bits, _ := intRange(typ)
		if bits == 0 {
			return
		}
		v := Select(arr, r)
		body = And(Le(mkLit(lo), v), Le(v, mkLit(hi)))
	default:
		if mv, ok := typ.(*mapValType); ok && sortOf(mv.m.Elem()) == SInt {
			k := mk("k", sortOf(mv.m.Key()))
			v := Select(Select(arr, r), k)
			lo, hi, bits, _ := intRange(mv.m.Elem())
			if bits != 0 {
				p.symAx[arr.Op] = []*Term{Forall([]*Term{r, k}, [][]*Term{{v}}, And(Le(mkLit(lo), v), Le(v, mkLit(hi))))}
			}
		}
		return
	}
	p.symAx[arr.Op] = []*Term{Forall([]*Term{r}, [][]*Term{{Select(arr, r)}}, body)}
}

func mkLit(s string) *Term { return mk(s, SInt) }

func (x *Exec) heap(st *State, key string, typ types.Type) *Term {
	x.prog.keyTypes[key] = typ
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.baseHeap(key, typ)
}

func (x *Exec) setHeap(st *State, key string, t *Term) {
	st.heap[key] = t
	x.record(func(w *writeSet) { w.keys[key] = true })
}

func (x *Exec) havocHeap(st *State, key string) (old, new *Term) {
	typ := x.prog.keyTypes[key]
	old = x.heap(st, key, typ)
	new = fresh("H:"+key, old.Sort)
	x.prog.heapWF(new, key, typ, st.next)
	x.setHeap(st, key, new)
	return
}

func (x *Exec) view(st *State) *HeapView {
	return &HeapView{
		get:   func(key string, typ types.Type) *Term { return x.heap(st, key, typ) },
		next:  st.next,
		ghost: func(n string) *Term { return x.ghostVal(st, n) },
	}
}

// snapshot captures the current heap.
func (x *Exec) snapshot(st *State) *HeapView {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	g := make(map[string]*Term)
	for k, v := range st.ghost {
		g[k] = v
	}
	return &HeapView{
		get: func(key string, typ types.Type) *Term {
			if t, ok := h[key]; ok {
				return t
			}
			return x.baseHeap(key, typ)
		},
		next: st.next,
		ghost: func(n string) *Term {
			if t, ok := g[n]; ok {
				return t
			}
			return x.ghostBase(n)
		},
	}
}

func ghostSort(n string) string {
	switch {
	case strings.HasPrefix(n, "out"):
		return SStr
	case strings.HasPrefix(n, "live"):
		return arrSort(SBool)
	}
	return SInt
}
func (x *Exec) ghostBase(n string) *Term { return mk(smtSym("G0:"+n), ghostSort(n)) }
func (x *Exec) ghostVal(st *State, n string) *Term {
	if t, ok := st.ghost[n]; ok {
		return t
	}
	return x.ghostBase(n)
}
func (x *Exec) setGhost(st *State, n string, t *Term) {
	st.ghost[n] = t
	x.record(func(w *writeSet) { w.ghost[n] = true })
}

// typeFacts returns well-formedness facts of a scalar term of a Go type.
func typeFacts(t *Term, typ types.Type, next *Term) []*Term {
	if typ == nil || len(t.Args) == 0 && (t.Op == "null" || t.Op == "nilS") {
		return nil
	}
	switch t.Sort {
	case SInt:
		if _, ok := t.isLit(); ok {
			return nil
		}
		lo, hi, bits, _ := intRange(typ)
		if bits == 0 {
			return nil
		}
		return []*Term{Le(mkLit(lo), t), Le(t, mkLit(hi))}
	case SSlice:
		return []*Term{mk("wfS", SBool, t, next)}
	case SRef:
		a := aid(t)
		return []*Term{Le(IntLit(0), a), Lt(a, next)}
	}
	return nil
}

func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	if s, ok := isStruct(t); ok {
		v := Val{Typ: t, Fields: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			v.Fields = append(v.Fields, x.freshVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{Typ: t, IsTup: true, Fields: []Val{}}
		for i := 0; i < tp.Len(); i++ {
			v.Fields = append(v.Fields, x.freshVal(st, fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return v
	}
	c := fresh(name, sortOf(t))
	st.assume(typeFacts(c, t, st.next)...)
	return Val{T: c, Typ: t}
}

// load reads a location of type typ from a heap view.
func loadView(h *HeapView, a *Addr) Val {
	if a.Key != "" {
		return Val{T: Select(h.get(a.Key, a.Typ), a.Ref), Typ: a.Typ}
	}
	s, ok := isStruct(a.Typ)
	if !ok {
		panic(unsupported{fmt.Sprintf("load of %v", a.Typ)})
	}
	v := Val{Typ: a.Typ, Fields: []Val{}}
	for i := 0; i < s.NumFields(); i++ {
		v.Fields = append(v.Fields, loadView(h, fieldAddr(a, i)))
	}
	return v
}

// fieldAddr is the address of field i of the struct at heap address a.
func fieldAddr(a *Addr, i int) *Addr {
	s, _ := isStruct(a.Typ)
	ft := s.Field(i).Type()
	if _, ok := isStruct(ft); ok {
		return &Addr{Ref: fldRef(a.Ref, i), Typ: ft}
	}
	return &Addr{Ref: a.Ref, Key: fieldKey(a.Typ, s, i), Typ: ft}
}

// heapAddr is the address of a value of type t at reference r.
func heapAddr(r *Term, t types.Type) *Addr {
	if _, ok := isStruct(t); ok {
		return &Addr{Ref: r, Typ: t}
	}
	return &Addr{Ref: r, Key: memKey(t), Typ: t}
}

func (x *Exec) load(st *State, a *Addr) Val {
	if a.Cell != nil {
		cs := st.cells[a.Cell]
		if cs.ref != nil {
			return x.load(st, cellHeapAddr(a, cs.ref))
		}
		v := cs.val
		for _, i := range a.Path {
			v = v.Fields[i]
		}
		return v
	}
	v := loadView(x.view(st), a)
	x.loadFacts(st, v)
	return v
}

func (x *Exec) loadFacts(st *State, v Val) {
	if v.Fields != nil {
		for _, f := range v.Fields {
			x.loadFacts(st, f)
		}
		return
	}
	if v.T != nil && v.T.Op == "select" && v.T.Args[0].Op != "" && len(v.T.Args[0].Args) == 0 {
		// base arrays carry quantified axioms, derived ones do not
		st.assume(typeFacts(v.T, v.Typ, st.next)...)
	}
}

func cellHeapAddr(a *Addr, ref *Term) *Addr {
	h := heapAddr(ref, a.Cell.Typ)
	for _, i := range a.Path {
		h = fieldAddr(h, i)
	}
	return h
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	fs := append([]Val(nil), v.Fields...)
	fs[path[0]] = setPath(fs[path[0]], path[1:], nv)
	v.Fields = fs
	return v
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if a.Cell != nil {
		cs := st.cells[a.Cell]
		if cs.ref != nil {
			x.store(st, cellHeapAddr(a, cs.ref), v)
			return
		}
		cs.val = setPath(cs.val, a.Path, v)
		st.cells[a.Cell] = cs
		x.record(func(w *writeSet) { w.cells[a.Cell] = true })
		return
	}
	if a.Key != "" {
		h := x.heap(st, a.Key, a.Typ)
		t := x.term(st, v)
		n := fresh("H:"+a.Key, h.Sort)
		st.assume(Eq(n, Store(h, a.Ref, t)))
		x.setHeap(st, a.Key, n)
		return
	}
	s, _ := isStruct(a.Typ)
	for i := 0; i < s.NumFields(); i++ {
		x.store(st, fieldAddr(a, i), v.Fields[i])
	}
}

func (x *Exec) alloc(st *State) *Term {
	id := st.next
	st.next = Add(st.next, IntLit(1))
	x.record(func(w *writeSet) { w.next = true })
	return id
}

// term converts a value to a single SMT term, materialising cells when needed.
func (x *Exec) term(st *State, v Val) *Term {
	if v.T != nil {
		return v.T
	}
	if v.A != nil {
		a := v.A
		if a.Cell != nil {
			cs := st.cells[a.Cell]
			if cs.ref == nil {
				ref := objRef(x.alloc(st))
				val := cs.val
				cs.ref = ref
				st.cells[a.Cell] = cs
				x.record(func(w *writeSet) { w.mat[a.Cell] = true })
				x.store(st, heapAddr(ref, a.Cell.Typ), val)
			}
			a = cellHeapAddr(a, st.cells[a.Cell].ref)
		}
		if a.Key == "" || strings.HasPrefix(a.Key, "mem:") {
			return a.Ref
		}
		unsup("address of field %s escapes", a.Key)
	}
	if v.Clo != nil {
		return x.prog.cloTerm(v.Clo)
	}
	if v.Typ != nil {
		unsup("no term for value of type %v", v.Typ)
	}
	unsup("no term for value")
	return nil
}

// addrOf turns a pointer value into an address.
func (x *Exec) addrOf(st *State, v Val, elem types.Type) *Addr {
	if v.A != nil {
		return v.A
	}
	return heapAddr(v.T, elem)
}

// cloTerm names a known function value; two closures over variables are never identified.
func (p *Program) cloTerm(c *Closure) *Term {
	n := "clo:" + c.Fn.String()
	if len(c.Binds) > 0 {
		if c.sym == "" {
			freshCtr++
			c.sym = fmt.Sprintf("%s!%d", n, freshCtr)
		}
		n = c.sym
	}
	t := mk(smtSym(n), SFun)
	p.symAx[t.Op] = []*Term{Not(Eq(t, nilFun))}
	return t
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch {
	case c.Value.Kind() == constant.Bool:
		return Val{T: BoolLit(constant.BoolVal(c.Value)), Typ: t}
	case c.Value.Kind() == constant.String:
		return Val{T: strConst(constant.StringVal(c.Value)), Typ: t}
	case c.Value.Kind() == constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return Val{T: BigLit(n), Typ: t}
		}
	}
	if sortOf(t) == SFlt {
		return Val{T: mk(smtSym("flt:"+c.Value.ExactString()), SFlt), Typ: t}
	}
	unsup("constant %v", c)
	return Val{}
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		r := x.prog.globalRef(v)
		return Val{A: heapAddr(r, deref(v.Type())), Typ: v.Type()}
	case *ssa.Function:
		return Val{Clo: &Closure{Fn: v}, Typ: v.Type()}
	case *ssa.Builtin:
		unsup("builtin as value")
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn)})
	}
	return r
}

func (p *Program) globalRef(g *ssa.Global) *Term {
	// globals get the small identities 1..; the heap starts above them
	id, ok := p.globals[g]
	if !ok {
		id = len(p.globals) + 1
		p.globals[g] = id
	}
	return objRef(IntLit(int64(id)))
}

func posStr(fs *token.FileSet, p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fs.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
