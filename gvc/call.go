package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 16

func (x *Exec) callArgs(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		return x.val(st, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return Val{}, args
	}
	return x.val(st, c.Value), args
}

// calleeKey is the contract key of a statically known callee.
func (p *Program) calleeKey(fn *ssa.Function) string {
	return fn.String()
}

func (p *Program) contractOf(fn *ssa.Function) *Contract {
	if c, ok := p.specs.Contracts[fn.String()]; ok {
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		if c, ok := p.specs.Contracts[o.String()]; ok {
			return c
		}
	}
	return nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		// synthetic wrappers (bound methods, promoted methods)
		return fn.Synthetic != ""
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/ikawaha/kagome")
}

// resolveCall classifies a call: builtin name, inline function, or contract.
type callTarget struct {
	builtin string
	inline  *ssa.Function
	con     *Contract
	fn      *ssa.Function
	key     string
}

func (p *Program) invokeKey(c *ssa.CallCommon) string {
	return "(" + types.TypeString(types.Unalias(c.Value.Type()), nil) + ")." + c.Method.Name()
}

func (p *Program) dynKey(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	if sig, ok := t.(*types.Signature); ok {
		return "dyn:" + sigString(sig)
	}
	return "dyn:" + shortType(t)
}

// sigString prints a signature without parameter names.
func sigString(s *types.Signature) string {
	list := func(t *types.Tuple) string {
		var r []string
		for i := 0; i < t.Len(); i++ {
			r = append(r, shortType(t.At(i).Type()))
		}
		return strings.Join(r, ", ")
	}
	o := "func(" + list(s.Params()) + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		o += " " + list(s.Results())
	default:
		o += " (" + list(s.Results()) + ")"
	}
	return o
}

func (p *Program) target(c *ssa.CallCommon, clo *Closure) callTarget {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return callTarget{builtin: b.Name()}
	}
	if c.IsInvoke() {
		k := p.invokeKey(c)
		if con, ok := p.specs.Contracts[k]; ok {
			return callTarget{con: con, key: k}
		}
		return callTarget{key: k}
	}
	fn := c.StaticCallee()
	if fn == nil && clo != nil {
		fn = clo.Fn
	}
	if fn == nil {
		k := p.dynKey(c)
		if con, ok := p.specs.Contracts[k]; ok {
			return callTarget{con: con, key: k}
		}
		return callTarget{key: k}
	}
	con := p.contractOf(fn)
	if con != nil && !con.Inline {
		return callTarget{con: con, fn: fn, key: fn.String()}
	}
	if (p.inRepo(fn) || con != nil) && len(fn.Blocks) > 0 {
		return callTarget{inline: fn, fn: fn, key: fn.String()}
	}
	return callTarget{fn: fn, key: fn.String()}
}

func (x *Exec) setResult(st *State, instr ssa.Value, r Val) {
	if instr != nil {
		st.top().env[instr] = r
	}
}

func (x *Exec) call(st *State, instr ssa.Value, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, isDefer bool) *State {
	next := func(r Val) *State {
		x.setResult(st, instr, r)
		if !isDefer {
			st.top().idx++
		}
		return st
	}
	// unwrap Call instr nil interface
	if in, ok := instr.(*ssa.Call); ok && in == nil {
		instr = nil
	}
	if c.IsInvoke() {
		if fnv.Dyn != nil {
			// devirtualise a known dynamic type
			if m := x.prog.ssa.LookupMethod(fnv.Dyn.Typ, c.Method.Pkg(), c.Method.Name()); m != nil && (x.prog.inRepo(m) || x.prog.contractOf(m) != nil) {
				cc := *c
				cc.Value = m
				cc.Method = nil
				return x.call(st, instr, &cc, Val{Clo: &Closure{Fn: m}}, append([]Val{*fnv.Dyn}, args...), pos, isDefer)
			}
		}
		x.safe(st, "method call on nil interface", pos, Not(Eq(x.term(st, fnv), nilIface)))
	}
	t := x.prog.target(c, fnv.Clo)
	switch {
	case t.builtin != "":
		return x.builtinCall(st, instr, c, t.builtin, args, pos, next)
	case t.con != nil:
		if c.IsInvoke() {
			args = append([]Val{fnv}, args...)
		} else if t.fn == nil {
			// dynamic: function value and call number
			ft := x.term(st, fnv)
			x.safe(st, "call of a nil function", pos, Not(Eq(ft, nilFun)))
			n := x.ghostVal(st, "ncalls")
			args = append([]Val{{T: ft, Typ: c.Value.Type()}, {T: n, Typ: tInt}}, args...)
			x.setGhost(st, "ncalls", Add(n, IntLit(1)))
		}
		if t.con.Iter != nil {
			return x.iterCall(st, instr, c, t, args, pos)
		}
		r, ok := x.contractCall(st, c, t, args, pos)
		if !ok {
			return nil
		}
		return next(r)
	case t.inline != nil:
		return x.inlineCall(st, instr, c, t.inline, fnv, args, isDefer)
	}
	unsup("call of %s, which has no contract", t.key)
	return nil
}

func (x *Exec) callSitePath(f *Frame, name string) string {
	return fmt.Sprintf("%s/%s@%d.%d", f.path, name, f.block.Index, f.idx)
}

func (x *Exec) inlineCall(st *State, instr ssa.Value, c *ssa.CallCommon, fn *ssa.Function, fnv Val, args []Val, isDefer bool) *State {
	if len(st.frames) > maxDepth {
		unsup("call depth: %s", fn)
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsup("recursive function %s without contract", fn)
		}
	}
	x.prog.noteInlined(x, fn)
	nf := x.newFrame(fn, x.callSitePath(st.top(), fn.Name()))
	nf.call = instr
	nf.rundef = isDefer
	x.bindFrame(st, nf, fnv.Clo, args)
	st.frames = append(st.frames, nf)
	return st
}

func (x *Exec) newFrame(fn *ssa.Function, path string) *Frame {
	return &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], loops: map[string]*loopRun{}, names: map[string]ssa.Value{}, path: path}
}

func (x *Exec) bindFrame(st *State, f *Frame, clo *Closure, args []Val) {
	for i, p := range f.fn.Params {
		f.env[p] = args[i]
	}
	if clo != nil {
		for i, fv := range f.fn.FreeVars {
			if i < len(clo.Binds) {
				f.env[fv] = clo.Binds[i]
			}
		}
	}
}

// contractEnv binds the parameters of a callee contract.
func (x *Exec) bindParams(con *Contract, args []Val, fn *ssa.Function) map[string]Val {
	vars := map[string]Val{}
	for i, n := range con.Params {
		if i < len(args) {
			vars[n] = args[i]
		}
	}
	return vars
}

func (x *Exec) contractCall(st *State, c *ssa.CallCommon, t callTarget, args []Val, pos token.Pos) (Val, bool) {
	con := t.con
	if len(args) != len(con.Params) {
		unsup("contract of %s: %d parameters, call has %d", con.Key, len(con.Params), len(args))
	}
	x.prog.noteUse(x, con, t.fn)
	for i, a := range args {
		if a.T == nil && a.A != nil {
			args[i] = Val{T: x.term(st, a), Typ: a.Typ}
		}
	}
	pre := x.snapshot(st)
	vars := x.bindParams(con, args, t.fn)
	e := &Env{x: x, prog: x.prog, cur: x.view(st), old: pre, vars: vars}
	x.specSt = st
	for n, v := range vars {
		if v.T != nil && v.T.Sort == SInt && (v.T.Op == "+" || v.T.Op == "-" || v.T.Op == "*") {
			vars[n] = named(st, n, v)
		}
	}
	x.evalLets(e, con)
	for _, l := range con.Lets {
		vars[l.Name] = named(st, l.Name, vars[l.Name])
	}
	for i, r := range con.Requires {
		if r.has(x.prop) {
			x.oblige(st, "pre", fmt.Sprintf("%s.requires%d", shortKey(con.Key), i), posStr(x.prog.fset, pos)+" / "+r.Pos, e.Bool(r.E))
		}
	}
	for _, r := range con.Requires {
		if r.has(x.prop) {
			st.assume(e.Bool(r.E))
		}
	}
	if x.safety && t.fn != nil && t.fn == x.fn && x.dry == 0 {
		if len(con.Decreases) == 0 {
			unsup("recursive %s without decreases", t.key)
		}
		e0 := x.env0(st)
		e0.cur = x.entry
		var now, before []*Term
		for _, d := range con.Decreases {
			now = append(now, e.Int(d))
			before = append(before, e0.Int(d))
		}
		x.oblige(st, "decreases", "recursion", con.Pos, lexLess(now, before))
	}
	if con.NoReturn {
		return Val{}, false
	}
	if !con.Pure {
		x.applyFrame(st, con, t.fn, pre, vars)
	}
	sig := c.Signature()
	res := x.resultVal(st, con, sig)
	e2 := &Env{x: x, prog: x.prog, cur: x.view(st), old: pre, vars: map[string]Val{}}
	for k, v := range e.vars {
		e2.vars[k] = v
	}
	x.bindResults(e2, con, res)
	for _, en := range con.Ensures {
		if en.has(x.prop) {
			st.assume(e2.Bool(en.E))
		}
	}
	name := shortKey(con.Key)
	if x.con != nil {
		x.afterAsserts(st, name, e2)
	}
	return res, true
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		pre := ""
		if strings.HasPrefix(k, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(k, "(") {
			pre = "("
		}
		return pre + k[i+1:]
	}
	return k
}

// afterAsserts: intermediate assertions placed after a call of the named callee.
func (x *Exec) afterAsserts(st *State, name string, callEnv *Env) {
	base := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		base = name[i+1:]
	}
	for _, n := range []string{name, base} {
		for i, a := range x.con.Asserts[n] {
			if !a.has(x.prop) || x.dry > 0 && a.Ghost == "" {
				continue
			}
			le := x.localEnv(st, nil)
			for k, v := range callEnv.vars {
				le.vars["$"+k] = v
			}
			if a.Ghost != "" {
				x.setGhost(st, a.Ghost, le.scalar(a.E))
				continue
			}
			g := le.Bool(a.E)
			if !x.prog.isLemmaExpr(a.E) {
				x.oblige(st, "hint", fmt.Sprintf("after.%s.%d", n, i), a.Pos, g)
			}
			st.assume(g)
		}
		if base == name {
			break
		}
	}
}

func (x *Exec) evalLets(e *Env, con *Contract) {
	for _, l := range con.Lets {
		if _, ok := e.vars[l.Name]; !ok {
			e.vars[l.Name] = e.force(e.eval(l.E))
		}
	}
}

// named gives a compound term a name: solvers match triggers modulo equalities between constants,
// but not reliably modulo arithmetic.
func named(st *State, name string, v Val) Val {
	if v.T == nil || len(v.T.Args) == 0 || v.T.Sort != SInt && v.T.Sort != SStr {
		return v
	}
	c := fresh("n_"+name, v.T.Sort)
	st.assume(Eq(c, v.T))
	v.T = c
	return v
}

func (x *Exec) resultVal(st *State, con *Contract, sig *types.Signature) Val {
	rs := sig.Results()
	nm := strings.NewReplacer("(", "", ")", "", "*", "").Replace(shortKey(con.Key))
	switch rs.Len() {
	case 0:
		return Val{IsTup: true, Fields: []Val{}}
	case 1:
		return x.freshVal(st, "r:"+nm, rs.At(0).Type())
	}
	return x.freshVal(st, "r:"+nm, rs)
}

// quietKey: nothing is assumed about the contents of unallocated memory of this kind (see heapWF).
func quietKey(k string, t types.Type) bool { return !isMapKey(t) && sortOfKey(k, t) == SStr }
func isMapKey(t types.Type) bool {
	switch t.(type) {
	case *mapDomType, *mapValType:
		return true
	}
	return false
}

// applyFrame havocs what the callee may write.
func (x *Exec) applyFrame(st *State, con *Contract, fn *ssa.Function, pre *HeapView, vars map[string]Val) {
	keys := map[string]types.Type{}
	allocs := false
	ghosts := map[string]bool{}
	if fn != nil && x.prog.inRepo(fn) && con.Trusted == "" && !con.Extern {
		w := x.prog.writes(fn)
		for k, t := range w.keys {
			if !(con.Quiet && quietKey(k, t)) {
				keys[k] = t
			}
		}
		for g := range w.ghost {
			ghosts[g] = true
		}
		allocs = w.alloc
	} else {
		for _, m := range con.Mods {
			if m.Fresh && m.in(x.prop) {
				allocs = true
			}
		}
	}
	for _, m := range con.Mods {
		if !m.in(x.prop) {
			continue
		}
		for _, k := range m.Keys {
			if strings.HasPrefix(k, "ghost:") {
				ghosts[strings.TrimPrefix(k, "ghost:")] = true
				continue
			}
			if k == "next" {
				allocs = true
				continue
			}
			if strings.HasSuffix(k, "*") {
				for _, kk := range sortedKeys(x.prog.keyTypes) {
					if matchKeys([]string{k}, kk) {
						keys[kk] = x.prog.keyTypes[kk]
					}
				}
				continue
			}
			typ, ok := x.prog.keyTypes[k]
			if !ok {
				typ = x.prog.typeOfKey(k)
			}
			keys[k] = typ
		}
	}
	if allocs {
		n := fresh("next", SInt)
		st.assume(Le(st.next, n))
		st.next = n
		x.record(func(w *writeSet) { w.next = true })
	}
	for _, k := range sortedKeys(keys) {
		x.prog.keyTypes[k] = keys[k]
		old, nw := x.havocHeap(st, k)
		f := modFormula(x, con, k, old, nw, pre, vars)
		if f != nil {
			st.assume(f)
			x.bstrFrame(st, con, k, old, nw, pre, vars)
		}
	}
	for _, g := range sortedKeys(ghosts) {
		x.setGhost(st, g, fresh("G:"+g, ghostSort(g)))
	}
}

func (m *ModClause) in(prop string) bool { return (&Clause{Labels: m.Labels}).has(prop) }

// modFormula: component k is unchanged outside the regions the contract declares (nil: may change anywhere).
func modFormula(x *Exec, con *Contract, k string, old, nw *Term, pre *HeapView, vars map[string]Val) *Term {
	r := mk("r", SRef)
	var allowed []*Term
	for _, m := range con.Mods {
		if !m.in(x.prop) || !matchKeys(m.Keys, k) || m.Fresh {
			continue
		}
		if m.E == nil {
			return nil
		}
		e := &Env{x: x, prog: x.prog, cur: pre, old: pre, vars: map[string]Val{}}
		for n, v := range vars {
			e.vars[n] = v
		}
		x.evalLets(e, con)
		e.vars["$r"] = Val{T: r, Typ: types.Typ[types.UnsafePointer]}
		allowed = append(allowed, e.Bool(m.E))
	}
	return Forall([]*Term{r}, [][]*Term{{Select(nw, r)}}, Implies(And(Lt(mk("aid", SInt, r), pre.next), Not(Or(allowed...))), Eq(Select(nw, r), Select(old, r))))
}

const byteKey = "mem:byte"

func isByteKey(k string) bool { return k == "mem:byte" || k == "mem:uint8" }

// bstrFrame: byte slices older than the call keep their contents unless some element w(s) lies in a declared region.
func (x *Exec) bstrFrame(st *State, con *Contract, k string, old, nw *Term, pre *HeapView, vars map[string]Val) {
	if !isByteKey(k) {
		return
	}
	s := mk("s", SSlice)
	w := mk(fresh("w", SInt).Op, SInt, s)
	var allowed []*Term
	for _, m := range con.Mods {
		if !m.in(x.prop) || !matchKeys(m.Keys, k) || m.Fresh {
			continue
		}
		e := &Env{x: x, prog: x.prog, cur: pre, old: pre, vars: map[string]Val{}}
		for n, v := range vars {
			e.vars[n] = v
		}
		x.evalLets(e, con)
		e.vars["$r"] = Val{T: atRef(s, w), Typ: types.Typ[types.UnsafePointer]}
		allowed = append(allowed, e.Bool(m.E))
	}
	same := Eq(mk("bstr", SStr, nw, s), mk("bstr", SStr, old, s))
	if len(allowed) > 0 {
		same = Or(same, And(Le(IntLit(0), w), Lt(w, sLen(s)), Or(allowed...)))
	}
	st.assume(Forall([]*Term{s}, [][]*Term{{mk("bstr", SStr, nw, s)}}, Implies(Lt(sBase(s), pre.next), same)))
}

// iterCall executes a library iteration over a known callback as a loop.
func (x *Exec) iterCall(st *State, instr ssa.Value, c *ssa.CallCommon, t callTarget, args []Val, pos token.Pos) *State {
	con := t.con
	f := st.top()
	x.prog.noteUse(x, con, t.fn)
	cb := args[con.Iter.Cb]
	if cb.Clo == nil {
		unsup("iteration with an unknown callback")
	}
	key := x.callSitePath(f, "iter")
	vars := x.bindParams(con, args, t.fn)
	mkEnv := func(s *State, k *Term) *Env {
		e := &Env{x: x, prog: x.prog, cur: x.view(s), old: x.view(s), vars: map[string]Val{}}
		for n, v := range vars {
			e.vars[n] = v
		}
		e.vars["$k"] = Val{T: k, Typ: tInt}
		return e
	}
	x.specSt = st
	e0 := mkEnv(st, IntLit(0))
	for i, r := range con.Requires {
		if r.has(x.prop) {
			x.oblige(st, "pre", fmt.Sprintf("%s.requires%d", shortKey(con.Key), i), posStr(x.prog.fset, pos)+" / "+r.Pos, e0.Bool(r.E))
		}
	}
	for _, r := range con.Requires {
		if r.has(x.prop) {
			st.assume(e0.Bool(r.E))
		}
	}
	count := e0.Int(con.Iter.Count)
	st.assume(Le(IntLit(0), count))
	cbFrame := func(s *State, k *Term, it *iterRun) {
		nf := x.newFrame(cb.Clo.Fn, key+"/cb")
		nf.iter = it
		e := mkEnv(s, k)
		var as []Val
		sig := cb.Clo.Fn.Signature
		for i, a := range con.Iter.Args {
			v := e.scalar(a)
			s.assume(typeFacts(v, sig.Params().At(i).Type(), s.next)...)
			as = append(as, Val{T: v, Typ: sig.Params().At(i).Type()})
		}
		// facts about the arguments
		for _, en := range con.Ensures {
			if en.has(x.prop) {
				s.assume(e.Bool(en.E))
			}
		}
		x.bindFrame(s, nf, cb.Clo, as)
		x.prog.noteInlined(x, cb.Clo.Fn)
		s.frames = append(s.frames, nf)
	}
	dry := func() *writeSet {
		total := newWriteSet()
		for n := 0; n < 6; n++ {
			ws := newWriteSet()
			s := st.clone()
			save := x.rec
			x.rec = nil
			for cl := range total.mat {
				if cs, ok := s.cells[cl]; ok && cs.ref == nil {
					x.term(s, Val{A: &Addr{Cell: cl}})
				}
			}
			x.havoc(s, total, s.top())
			lr := &loopRun{dry: true, k: fresh("dryk", SInt), entry: x.snapshot(s), spec: &LoopSpec{}}
			s.top().loops[key] = lr
			cbFrame(s, lr.k, &iterRun{lr: lr, done: func(*State) {}})
			x.rec = []*writeSet{ws}
			x.subRun(s, key)
			x.rec = save
			if !total.merge(ws) {
				break
			}
		}
		x.recordWS(total)
		return total
	}
	spec, ord := x.loopSpec(f, key)
	ws := dry()
	for _, cl := range sortedCells(ws.mat) {
		if cs, ok := st.cells[cl]; ok && cs.ref == nil {
			x.term(st, Val{A: &Addr{Cell: cl}})
		}
	}
	lr := &loopRun{spec: spec, ord: ord, k: IntLit(0), entry: x.snapshot(st)}
	if x.dry == 0 {
		tmp := st.clone()
		tmp.top().loops[key] = lr
		e := x.localEnv(tmp, lr)
		x.heads(tmp, e, spec)
		for i, inv := range spec.Invs {
			if inv.has(x.prop) {
				g := e.Bool(inv.E)
				x.obligeKeep(tmp, "inv-init", fmt.Sprintf("loop%d.inv%d", ord, i), inv.Pos, g)
			}
		}
		for _, k := range sortedKeys(ws.keys) {
			if t := x.frameFormula(st, k); t != nil {
				x.oblige(st, "frame", "loopinit:"+k, x.con.Pos, t)
			}
		}
	}
	x.havoc(st, ws, f)
	lr2 := *lr
	lr2.k = fresh("k", SInt)
	st.assume(Le(IntLit(0), lr2.k), Le(lr2.k, count))
	f.loops[key] = &lr2
	if x.dry == 0 {
		e := x.localEnv(st, &lr2)
		for _, inv := range spec.Invs {
			if inv.has(x.prop) {
				st.assume(e.Bool(inv.E))
			}
		}
		x.heads(st, e, spec)
	}
	x.assumeFrame(st, ws)
	// one iteration
	if x.dry == 0 {
		s := st.clone()
		s.assume(Lt(lr2.k, count))
		cbFrame(s, lr2.k, &iterRun{lr: &lr2, count: count, done: func(s *State) {
			n := lr2
			n.k = Add(lr2.k, IntLit(1))
			s.top().loops[key] = &n
			e := x.localEnv(s, &n)
			for i, h := range spec.Hint {
				if h.has(x.prop) {
					g := e.Bool(h.E)
					if !x.prog.isLemmaExpr(h.E) {
						x.oblige(s, "hint", fmt.Sprintf("loop%d.hint%d", ord, i), h.Pos, g)
					}
					s.assume(g)
				}
			}
			for i, inv := range spec.Invs {
				if inv.has(x.prop) {
					g := e.Bool(inv.E)
					x.obligeKeep(s, "inv-step", fmt.Sprintf("loop%d.inv%d", ord, i), inv.Pos, g)
				}
			}
			x.obligeFrame(s, "loop")
		}})
		x.fork(s)
	}
	// after the iteration
	st.assume(Eq(lr2.k, count))
	delete(f.loops, key)
	x.setResult(st, instr, Val{IsTup: true, Fields: []Val{}})
	f.idx++
	return st
}

// ---------- builtins ----------

func (x *Exec) builtinCall(st *State, instr ssa.Value, c *ssa.CallCommon, name string, args []Val, pos token.Pos, next func(Val) *State) *State {
	switch name {
	case "len", "cap":
		t := x.term(st, args[0])
		switch t.Sort {
		case SStr:
			return next(Val{T: slen(t), Typ: tInt})
		case SSlice:
			if name == "cap" {
				return next(Val{T: sCap(t), Typ: tInt})
			}
			return next(Val{T: sLen(t), Typ: tInt})
		}
		unsup("%s of %v", name, c.Args[0].Type())
	case "append":
		return next(x.doAppend(st, c.Args[0].Type(), args[0], args[1], c.Args[1].Type()))
	case "copy":
		return next(x.doCopy(st, c.Args[0].Type(), args[0], args[1]))
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := x.term(st, args[0])
		k := x.term(st, args[1])
		dk := mapDomKey(mt)
		d := x.heap(st, dk, &mapDomType{m: mt})
		n := fresh("H:"+dk, d.Sort)
		st.assume(Eq(n, Store(d, m, Store(Select(d, m), k, False))))
		x.setHeap(st, dk, n)
		return next(Val{IsTup: true, Fields: []Val{}})
	case "min", "max":
		a, b := args[0].T, args[1].T
		if len(args) == 2 && a.Sort == SInt {
			if name == "min" {
				return next(Val{T: Ite(Le(a, b), a, b), Typ: c.Args[0].Type()})
			}
			return next(Val{T: Ite(Le(a, b), b, a), Typ: c.Args[0].Type()})
		}
	case "ssa:wrapnilchk":
		return next(args[0])
	case "panic":
		if x.safety {
			x.oblige(st, "safety", "explicit panic is unreachable", posStr(x.prog.fset, pos), False)
		}
		return nil
	case "print", "println":
		return next(Val{IsTup: true, Fields: []Val{}})
	}
	unsup("builtin %s", name)
	return nil
}

func rix(r *Term) *Term { return mk("rix", SInt, r) }

func (x *Exec) doAppend(st *State, typ types.Type, sv, ev Val, et types.Type) Val {
	el := typ.Underlying().(*types.Slice).Elem()
	s := x.term(st, sv)
	e := x.term(st, ev)
	n1 := sLen(s)
	var n2 *Term
	if e.Sort == SStr {
		n2 = slen(e)
	} else {
		n2 = sLen(e)
	}
	if n, ok := n2.isLit(); ok && n.Sign() == 0 {
		return Val{T: s, Typ: typ}
	}
	id := x.alloc(st)
	total := Add(n1, n2)
	r := fresh("app", SSlice)
	fits := Le(total, sCap(s))
	st.assume(Eq(sLen(r), total), Le(total, sCap(r)),
		Implies(fits, And(Eq(sBase(r), sBase(s)), Eq(sOff(r), sOff(s)), Eq(sCap(r), sCap(s)))),
		Implies(Not(fits), And(Eq(sBase(r), id), Eq(sOff(r), IntLit(0)))),
		mk("wfS", SBool, r, st.next))
	for _, lf := range leafs(heapAddr(mk("r", SRef), el)) {
		h := x.heap(st, lf.Key, lf.Typ)
		n := fresh("H:"+lf.Key, h.Sort)
		x.prog.heapWF(n, lf.Key, lf.Typ, st.next)
		rr := mk("r", SRef)
		i := mk("i", SInt)
		loc := func(b *Term) *Term { return lf.Ref.subst(map[string]*Term{"r": b}) }
		lo, hi := Add(sOff(r), n1), Add(sOff(r), total)
		st.assume(Forall([]*Term{rr}, [][]*Term{{Select(n, rr)}}, Implies(
			Or(Not(Eq(mk("aid", SInt, rr), sBase(r))), And(fits, Or(Lt(rix(rr), lo), Le(hi, rix(rr))))),
			Eq(Select(n, rr), Select(h, rr)))))
		// old elements
		nr, hs := Select(n, loc(atRef(r, i))), Select(h, loc(atRef(s, i)))
		st.assume(Forall([]*Term{i}, [][]*Term{{nr}, {hs}}, Implies(And(Le(IntLit(0), i), Lt(i, n1)), Eq(nr, hs))))
		// new elements
		if e.Sort == SStr {
			j := Add(n1, i)
			v := Select(n, loc(atRef(r, j)))
			st.assume(Forall([]*Term{i}, [][]*Term{{mk("sat", SInt, e, i)}}, Implies(And(Le(IntLit(0), i), Lt(i, n2)), Eq(v, mk("sat", SInt, e, i)))))
		} else if c, ok := n2.isLit(); ok && c.IsInt64() && c.Int64() <= 16 {
			for q := int64(0); q < c.Int64(); q++ {
				st.assume(Eq(Select(n, loc(atRef(r, Add(n1, IntLit(q))))), Select(h, loc(atRef(e, IntLit(q))))))
			}
		} else {
			j := Sub(i, n1)
			v, w := Select(n, loc(atRef(r, i))), Select(h, loc(atRef(e, j)))
			st.assume(Forall([]*Term{i}, [][]*Term{{v}}, Implies(And(Le(n1, i), Lt(i, total)), Eq(v, w))))
			v2, w2 := Select(n, loc(atRef(r, Add(n1, i)))), Select(h, loc(atRef(e, i)))
			st.assume(Forall([]*Term{i}, [][]*Term{{w2}}, Implies(And(Le(IntLit(0), i), Lt(i, n2)), Eq(v2, w2))))
		}
		if isByteKey(lf.Key) {
			bs := func(h, s *Term) *Term { return mk("bstr", SStr, h, s) }
			tail := e
			if e.Sort != SStr {
				tail = bs(h, e)
			}
			st.assume(Eq(bs(n, r), mk("cat", SStr, bs(h, s), tail)))
			q := mk("s", SSlice)
			st.assume(Forall([]*Term{q}, [][]*Term{{bs(n, q)}}, Implies(
				Or(Not(Eq(sBase(q), sBase(r))), And(fits, Or(Le(Add(sOff(q), sLen(q)), lo), Le(hi, sOff(q))))),
				Eq(bs(n, q), bs(h, q)))))
		}
		x.setHeap(st, lf.Key, n)
	}
	return Val{T: r, Typ: typ}
}

func (x *Exec) doCopy(st *State, typ types.Type, dv, sv Val) Val {
	el := typ.Underlying().(*types.Slice).Elem()
	d := x.term(st, dv)
	s := x.term(st, sv)
	if s.Sort != SSlice {
		unsup("copy from string")
	}
	n := fresh("copied", SInt)
	st.assume(Eq(n, Ite(Le(sLen(d), sLen(s)), sLen(d), sLen(s))))
	for _, lf := range leafs(heapAddr(mk("r", SRef), el)) {
		h := x.heap(st, lf.Key, lf.Typ)
		nh := fresh("H:"+lf.Key, h.Sort)
		x.prog.heapWF(nh, lf.Key, lf.Typ, st.next)
		rr := mk("r", SRef)
		i := mk("i", SInt)
		loc := func(b *Term) *Term { return lf.Ref.subst(map[string]*Term{"r": b}) }
		lo, hi := sOff(d), Add(sOff(d), n)
		st.assume(Forall([]*Term{rr}, [][]*Term{{Select(nh, rr)}}, Implies(
			Or(Not(Eq(mk("aid", SInt, rr), sBase(d))), Lt(rix(rr), lo), Le(hi, rix(rr))),
			Eq(Select(nh, rr), Select(h, rr)))))
		v, w := Select(nh, loc(atRef(d, i))), Select(h, loc(atRef(s, i)))
		st.assume(Forall([]*Term{i}, [][]*Term{{v}}, Implies(And(Le(IntLit(0), i), Lt(i, n)), Eq(v, w))))
		if isByteKey(lf.Key) {
			bs := func(h, s *Term) *Term { return mk("bstr", SStr, h, s) }
			q := mk("s", SSlice)
			st.assume(Forall([]*Term{q}, [][]*Term{{bs(nh, q)}}, Implies(
				Or(Not(Eq(sBase(q), sBase(d))), Le(Add(sOff(q), sLen(q)), lo), Le(hi, sOff(q))),
				Eq(bs(nh, q), bs(h, q)))))
			part := func(s *Term) *Term { return mk("mkS", SSlice, sBase(s), sOff(s), n, sCap(s)) }
			st.assume(Eq(bs(nh, part(d)), bs(h, part(s))))
		}
		x.setHeap(st, lf.Key, nh)
	}
	return Val{T: n, Typ: tInt}
}
