package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// wrap reduces an integer to the range of type t.
func (x *Exec) wrap(st *State, t *Term, typ types.Type, what string, pos token.Pos) *Term {
	lo, hi, bits, signed := intRange(typ)
	if bits == 0 {
		return t
	}
	if n, ok := t.isLit(); ok {
		l, _ := mkLit(lo).isLit()
		h, _ := mkLit(hi).isLit()
		if n.Cmp(l) >= 0 && n.Cmp(h) <= 0 {
			return t
		}
	}
	if bits == 64 && signed {
		// machine arithmetic is treated as mathematical; the absence of overflow is a safety obligation
		x.safe(st, what, pos, And(Le(mkLit(lo), t), Le(t, mkLit(hi))))
		return t
	}
	f := fmt.Sprintf("wrap%s%d", map[bool]string{true: "s", false: "u"}[signed], bits)
	return mk(f, SInt, t)
}

func (x *Exec) value(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Alloc:
		return x.doAlloc(st, v)
	case *ssa.BinOp:
		return x.binop(st, v)
	case *ssa.UnOp:
		return x.unop(st, v)
	case *ssa.ChangeType:
		r := x.val(st, v.X)
		r = retype(r, v.Type())
		return r
	case *ssa.Convert:
		return x.convert(st, v)
	case *ssa.ChangeInterface:
		r := x.val(st, v.X)
		r.Typ = v.Type()
		return r
	case *ssa.MakeInterface:
		return x.makeInterface(st, x.val(st, v.X), v.X.Type(), v.Type())
	case *ssa.Extract:
		return x.val(st, v.Tuple).Fields[v.Index]
	case *ssa.Field:
		return x.val(st, v.X).Fields[v.Field]
	case *ssa.FieldAddr:
		p := x.val(st, v.X)
		x.nilCheck(st, p, v.Pos())
		a := x.addrOf(st, p, deref(v.X.Type()))
		return Val{A: x.fieldOfAddr(a, v.Field), Typ: v.Type()}
	case *ssa.IndexAddr:
		return x.indexAddr(st, v)
	case *ssa.Index:
		s := x.val(st, v.X)
		i := x.val(st, v.Index).T
		if s.T != nil && s.T.Sort == SStr {
			x.safe(st, "string index out of range", v.Pos(), And(Le(IntLit(0), i), Lt(i, slen(s.T))))
			r := mk("sat", SInt, s.T, i)
			return Val{T: r, Typ: v.Type()}
		}
		unsup("index of array value")
	case *ssa.Lookup:
		return x.lookup(st, v)
	case *ssa.MakeClosure:
		c := &Closure{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			c.Binds = append(c.Binds, x.val(st, b))
		}
		return Val{Clo: c, Typ: v.Type()}
	case *ssa.MakeMap:
		m := v.Type().Underlying().(*types.Map)
		r := objRef(x.alloc(st))
		dk := mapDomKey(m)
		d := x.heap(st, dk, &mapDomType{m: m})
		n := fresh("H:"+dk, d.Sort)
		_, vs := arrParts(d.Sort)
		st.assume(Eq(n, Store(d, r, mk("(as const "+vs+")", vs, False))))
		x.setHeap(st, dk, n)
		return Val{T: r, Typ: v.Type()}
	case *ssa.MakeSlice:
		return x.makeSlice(st, v)
	case *ssa.Range:
		s := x.val(st, v.X)
		if s.T == nil || s.T.Sort != SStr {
			unsup("range over %v", v.X.Type())
		}
		c := &Cell{Name: "iter", Typ: tInt, ID: nextCell()}
		st.cells[c] = cellState{val: Val{T: IntLit(0), Typ: tInt}}
		return Val{It: &IterVal{Str: s.T, Cell: c}, Typ: v.Type()}
	case *ssa.Next:
		it := x.val(st, v.Iter)
		if it.It == nil {
			unsup("next on %v", v.Iter.Type())
		}
		c := it.It.Cell
		k := st.cells[c].val.T
		s := it.It.Str
		ok := Lt(k, rcT(s))
		key := mk("bp", SInt, s, k)
		r := mk("runeAt", SInt, s, k)
		st.cells[c] = cellState{val: Val{T: Add(k, IntLit(1)), Typ: tInt}}
		x.record(func(w *writeSet) { w.cells[c] = true })
		return Val{IsTup: true, Typ: v.Type(), Fields: []Val{{T: ok, Typ: tBool}, {T: key, Typ: tInt}, {T: r, Typ: types.Typ[types.Rune]}}}
	case *ssa.Slice:
		return x.slice(st, v)
	case *ssa.TypeAssert:
		return x.typeAssert(st, v)
	}
	unsup("instruction %T (%s)", v, v)
	return Val{}
}

var cellCtr int

func nextCell() int { cellCtr++; return cellCtr }

func retype(v Val, t types.Type) Val {
	v.Typ = t
	if v.Fields != nil && !v.IsTup {
		if s, ok := isStruct(t); ok {
			fs := append([]Val(nil), v.Fields...)
			for i := range fs {
				fs[i] = retype(fs[i], s.Field(i).Type())
			}
			v.Fields = fs
		}
	}
	if v.A != nil {
		a := *v.A
		if a.Cell == nil && a.Key == "" {
			a.Typ = deref(t)
		}
		v.A = &a
	}
	return v
}

func (x *Exec) doAlloc(st *State, v *ssa.Alloc) Val {
	t := deref(v.Type())
	if arr, ok := t.Underlying().(*types.Array); ok {
		id := x.alloc(st)
		// zeroed array: store each element for small arrays
		if arr.Len() <= 64 {
			for i := int64(0); i < arr.Len(); i++ {
				x.store(st, heapAddr(elemRef(id, IntLit(i)), arr.Elem()), zeroVal(arr.Elem()))
			}
		} else {
			x.zeroFill(st, nil, id, arr.Elem())
		}
		return Val{T: objRef(id), Typ: v.Type()}
	}
	c := &Cell{Name: v.Comment, Typ: t, ID: nextCell()}
	st.cells[c] = cellState{val: zeroVal(t)}
	return Val{A: &Addr{Cell: c, Typ: t}, Typ: v.Type()}
}

func (x *Exec) fieldOfAddr(a *Addr, i int) *Addr {
	if a.Cell != nil {
		n := *a
		n.Path = append(append([]int(nil), a.Path...), i)
		s, _ := isStruct(a.Typ)
		n.Typ = s.Field(i).Type()
		return &n
	}
	return fieldAddr(a, i)
}

func (x *Exec) indexAddr(st *State, v *ssa.IndexAddr) Val {
	s := x.val(st, v.X)
	i := x.val(st, v.Index).T
	switch u := v.X.Type().Underlying().(type) {
	case *types.Slice:
		t := x.term(st, s)
		x.safe(st, "index out of range", v.Pos(), And(Le(IntLit(0), i), Lt(i, sLen(t))))
		return Val{A: heapAddr(atRef(t, i), u.Elem()), Typ: v.Type()}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		t := x.term(st, s)
		if t.Op != "obj" {
			unsup("array pointer")
		}
		x.safe(st, "array index out of range", v.Pos(), And(Le(IntLit(0), i), Lt(i, IntLit(arr.Len()))))
		return Val{A: heapAddr(elemRef(t.Args[0], i), arr.Elem()), Typ: v.Type()}
	}
	unsup("indexaddr")
	return Val{}
}

func (x *Exec) makeSlice(st *State, v *ssa.MakeSlice) Val {
	l := x.val(st, v.Len).T
	c := x.val(st, v.Cap).T
	x.safe(st, "makeslice: len/cap out of range", v.Pos(), And(Le(IntLit(0), l), Le(l, c)))
	id := x.alloc(st)
	el := v.Type().Underlying().(*types.Slice).Elem()
	s := mkSlice(id, IntLit(0), l, c)
	x.zeroFill(st, s, id, el)
	return Val{T: s, Typ: v.Type()}
}

// zeroFill: the memory with identity id holds zero values of type el.
func (x *Exec) zeroFill(st *State, s, id *Term, el types.Type) {
	for _, lf := range leafs(heapAddr(mk("r", SRef), el)) {
		h := x.heap(st, lf.Key, lf.Typ)
		n := fresh("H:"+lf.Key, h.Sort)
		r := mk("r", SRef)
		i := mk("i", SInt)
		er := elemRef(id, i)
		loc := lf.Ref.subst(map[string]*Term{"r": er})
		st.assume(
			Forall([]*Term{r}, [][]*Term{{Select(n, r)}}, Implies(Not(Eq(mk("aid", SInt, r), id)), Eq(Select(n, r), Select(h, r)))),
			Forall([]*Term{i}, [][]*Term{{Select(n, loc)}}, Eq(Select(n, loc), zeroTerm(lf.Typ))),
		)
		x.setHeap(st, lf.Key, n)
	}
}

// leafs lists the scalar locations of an address.
func leafs(a *Addr) []*Addr {
	if a.Key != "" {
		return []*Addr{a}
	}
	s, ok := isStruct(a.Typ)
	if !ok {
		unsup("memory of type %v", a.Typ)
	}
	var r []*Addr
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, leafs(fieldAddr(a, i))...)
	}
	return r
}

func (x *Exec) slice(st *State, v *ssa.Slice) Val {
	b := x.val(st, v.X)
	idx := func(w ssa.Value) *Term {
		if w == nil {
			return nil
		}
		return x.val(st, w).T
	}
	lo, hi, max := idx(v.Low), idx(v.High), idx(v.Max)
	if lo == nil {
		lo = IntLit(0)
	}
	if arr, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		a := arr.Elem().Underlying().(*types.Array)
		t := x.term(st, b)
		n := IntLit(a.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		x.safe(st, "slice bounds out of range", v.Pos(), And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)))
		return Val{T: mkSlice(aid(t), lo, Sub(hi, lo), Sub(max, lo)), Typ: v.Type()}
	}
	t := x.term(st, b)
	if t.Sort == SStr {
		if hi == nil {
			hi = slen(t)
		}
		x.safe(st, "slice bounds out of range", v.Pos(), And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, slen(t))))
		if n, ok := lo.isLit(); ok && n.Sign() == 0 && v.High == nil {
			return Val{T: t, Typ: v.Type()}
		}
		return Val{T: substr(t, lo, hi), Typ: v.Type()}
	}
	if hi == nil {
		hi = sLen(t)
	}
	m := sCap(t)
	if max != nil {
		m = max
	}
	x.safe(st, "slice bounds out of range", v.Pos(), And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, m), Le(m, sCap(t))))
	r := mkSlice(sBase(t), Add(sOff(t), lo), Sub(hi, lo), Sub(m, lo))
	if n, ok := lo.isLit(); ok && n.Sign() == 0 {
		// the elements of both slices are the same locations: connects facts about either
		i := mk("i", SInt)
		st.assume(Forall([]*Term{i}, [][]*Term{{mk("at", SRef, r, i)}}, Eq(mk("at", SRef, r, i), mk("at", SRef, t, i))))
	}
	return Val{T: r, Typ: v.Type()}
}

func (x *Exec) binop(st *State, v *ssa.BinOp) Val {
	a, b := x.val(st, v.X), x.val(st, v.Y)
	switch v.Op {
	case token.EQL, token.NEQ:
		t := x.equal(st, a, b, v.X.Type())
		if v.Op == token.NEQ {
			t = Not(t)
		}
		return Val{T: t, Typ: v.Type()}
	}
	p, q := a.T, b.T
	if p == nil || q == nil {
		unsup("binop %v", v)
	}
	r := func(t *Term) Val { return Val{T: t, Typ: v.Type()} }
	if p.Sort == SStr {
		switch v.Op {
		case token.ADD:
			return r(mk("cat", SStr, p, q))
		case token.LSS:
			return r(mk("strlt", SBool, p, q))
		case token.GTR:
			return r(mk("strlt", SBool, q, p))
		case token.LEQ:
			return r(Not(mk("strlt", SBool, q, p)))
		case token.GEQ:
			return r(Not(mk("strlt", SBool, p, q)))
		}
	}
	if p.Sort != SInt {
		unsup("binop %v on %s", v.Op, p.Sort)
	}
	switch v.Op {
	case token.LSS:
		return r(cmpT("<", p, q))
	case token.LEQ:
		return r(cmpT("<=", p, q))
	case token.GTR:
		return r(cmpT(">", p, q))
	case token.GEQ:
		return r(cmpT(">=", p, q))
	case token.ADD:
		return r(x.wrap(st, Add(p, q), v.Type(), "integer overflow (+)", v.Pos()))
	case token.SUB:
		return r(x.wrap(st, Sub(p, q), v.Type(), "integer overflow (-)", v.Pos()))
	case token.MUL:
		return r(x.wrap(st, Mul(p, q), v.Type(), "integer overflow (*)", v.Pos()))
	case token.QUO, token.REM:
		x.safe(st, "division by zero", v.Pos(), Not(Eq(q, IntLit(0))))
		if n, ok := q.isLit(); ok && n.Sign() > 0 {
			// truncated division
			d := Ite(Le(IntLit(0), p), mk("div", SInt, p, q), Sub(IntLit(0), mk("div", SInt, Sub(IntLit(0), p), q)))
			if v.Op == token.QUO {
				return r(d)
			}
			return r(Sub(p, Mul(q, d)))
		}
	case token.SHL:
		if n, ok := q.isLit(); ok && n.IsInt64() && n.Int64() < 63 {
			return r(x.wrap(st, Mul(p, IntLit(1<<uint(n.Int64()))), v.Type(), "integer overflow (<<)", v.Pos()))
		}
	}
	op := fmt.Sprintf("op%d", int(v.Op))
	return r(mk(op, SInt, p, q))
}

func (x *Exec) equal(st *State, a, b Val, t types.Type) *Term {
	if a.Fields != nil {
		var r []*Term
		for i := range a.Fields {
			r = append(r, x.equal(st, a.Fields[i], b.Fields[i], a.Fields[i].Typ))
		}
		return And(r...)
	}
	// address comparison with nil
	if a.A != nil && b.T != nil && b.T.Op == "null" || b.A != nil && a.T != nil && a.T.Op == "null" {
		return False
	}
	if a.Clo != nil && b.T != nil && b.T.Op == "nilF" || b.Clo != nil && a.T != nil && a.T.Op == "nilF" {
		return False
	}
	p, q := x.term(st, a), x.term(st, b)
	if p.Sort == SSlice {
		if q.Op == "nilS" {
			return Eq(sBase(p), IntLit(0))
		}
		if p.Op == "nilS" {
			return Eq(sBase(q), IntLit(0))
		}
		unsup("slice comparison")
	}
	if p.Sort == SIface && (a.Dyn != nil && q.Op == "nilI" || b.Dyn != nil && p.Op == "nilI") {
		return False
	}
	if p.Sort == SFlt {
		return mk("flteq", SBool, p, q)
	}
	return Eq(p, q)
}

func (x *Exec) unop(st *State, v *ssa.UnOp) Val {
	a := x.val(st, v.X)
	switch v.Op {
	case token.MUL:
		x.nilCheck(st, a, v.Pos())
		t := deref(v.X.Type())
		r := x.load(st, x.addrOf(st, a, t))
		if r.A == nil && r.Clo == nil && r.It == nil && r.Fields == nil {
			r.Typ = t
		}
		return r
	case token.NOT:
		return Val{T: Not(a.T), Typ: v.Type()}
	case token.SUB:
		return Val{T: x.wrap(st, Sub(IntLit(0), a.T), v.Type(), "integer overflow (unary -)", v.Pos()), Typ: v.Type()}
	}
	unsup("unary %v", v.Op)
	return Val{}
}

func (x *Exec) convert(st *State, v *ssa.Convert) Val {
	a := x.val(st, v.X)
	from, to := v.X.Type().Underlying(), v.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			fl, fh, _, _ := intRange(from)
			tl, th, bits, _ := intRange(to)
			flo, _ := mkLit(fl).isLit()
			fhi, _ := mkLit(fh).isLit()
			tlo, _ := mkLit(tl).isLit()
			thi, _ := mkLit(th).isLit()
			if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
				return Val{T: a.T, Typ: v.Type()}
			}
			if n, ok := a.T.isLit(); ok && n.Cmp(tlo) >= 0 && n.Cmp(thi) <= 0 {
				return Val{T: a.T, Typ: v.Type()}
			}
			_, _, _, signed := intRange(to)
			f := fmt.Sprintf("wrap%s%d", map[bool]string{true: "s", false: "u"}[signed], bits)
			return Val{T: mk(f, SInt, a.T), Typ: v.Type()}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return Val{T: a.T, Typ: v.Type()}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return Val{T: mk("strOfRune", SStr, a.T), Typ: v.Type()}
		}
	}
	if s, ok := to.(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 {
		// []byte(s): fresh memory with the bytes of s
		if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			id := x.alloc(st)
			r := mkSlice(id, IntLit(0), slen(a.T), slen(a.T))
			key := memKey(s.Elem())
			h := x.heap(st, key, s.Elem())
			n := fresh("H:"+key, h.Sort)
			rr := mk("r", SRef)
			i := mk("i", SInt)
			st.assume(Forall([]*Term{rr}, [][]*Term{{Select(n, rr)}}, Implies(Not(Eq(mk("aid", SInt, rr), id)), Eq(Select(n, rr), Select(h, rr)))),
				Forall([]*Term{i}, [][]*Term{{Select(n, elemRef(id, i))}}, Implies(And(Le(IntLit(0), i), Lt(i, slen(a.T))), Eq(Select(n, elemRef(id, i)), mk("sat", SInt, a.T, i)))),
				Eq(mk("bstr", SStr, n, r), a.T))
			sv := mk("s", SSlice)
			st.assume(Forall([]*Term{sv}, [][]*Term{{mk("bstr", SStr, n, sv)}}, Implies(Not(Eq(sBase(sv), id)), Eq(mk("bstr", SStr, n, sv), mk("bstr", SStr, h, sv)))))
			x.setHeap(st, key, n)
			return Val{T: r, Typ: v.Type()}
		}
		if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
			// []rune(s): fresh memory with the runes of s
			id := x.alloc(st)
			n0 := mk("rc", SInt, a.T)
			r := mkSlice(id, IntLit(0), n0, n0)
			key := memKey(s.Elem())
			h := x.heap(st, key, s.Elem())
			n := fresh("H:"+key, h.Sort)
			rr := mk("r", SRef)
			i := mk("i", SInt)
			st.assume(Forall([]*Term{rr}, [][]*Term{{Select(n, rr)}}, Implies(Not(Eq(mk("aid", SInt, rr), id)), Eq(Select(n, rr), Select(h, rr)))),
				Forall([]*Term{i}, [][]*Term{{Select(n, elemRef(id, i))}}, Implies(And(Le(IntLit(0), i), Lt(i, n0)), Eq(Select(n, elemRef(id, i)), mk("runeAt", SInt, a.T, i)))))
			x.setHeap(st, key, n)
			return Val{T: r, Typ: v.Type()}
		}
	}
	if s, ok := from.(*types.Slice); ok && ok2 && tb.Info()&types.IsString != 0 {
		if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			return Val{T: mk("bstr", SStr, x.heap(st, memKey(s.Elem()), s.Elem()), a.T), Typ: v.Type()}
		}
	}
	if sortOf(v.X.Type()) == sortOf(v.Type()) {
		return retype(a, v.Type())
	}
	unsup("conversion %v to %v", v.X.Type(), v.Type())
	return Val{}
}

func (x *Exec) makeInterface(st *State, a Val, from, to types.Type) Val {
	var args []*Term
	ok := true
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(unsupported); is {
					ok = false
					return
				}
				panic(e)
			}
		}()
		if a.Fields != nil {
			args = a.flat()
		} else {
			args = []*Term{x.term(st, a)}
		}
	}()
	d := a
	d.Typ = from
	if !ok {
		return Val{T: fresh("iface", SIface), Typ: to, Dyn: &d}
	}
	name := smtSym("mkI:" + shortType(from))
	t := mk(name, SIface, args...)
	if len(args) == 0 {
		t = mk(name, SIface)
	}
	st.assume(Not(Eq(t, nilIface)))
	return Val{T: t, Typ: to, Dyn: &d}
}

func (x *Exec) typeAssert(st *State, v *ssa.TypeAssert) Val {
	a := x.val(st, v.X)
	if a.Dyn != nil && types.Identical(a.Dyn.Typ, v.AssertedType) {
		if v.CommaOk {
			return Val{IsTup: true, Typ: v.Type(), Fields: []Val{*a.Dyn, {T: True, Typ: tBool}}}
		}
		return *a.Dyn
	}
	unsup("type assertion to %v", v.AssertedType)
	return Val{}
}

func (x *Exec) lookup(st *State, v *ssa.Lookup) Val {
	m := x.val(st, v.X)
	k := x.val(st, v.Index)
	if m.T != nil && m.T.Sort == SStr {
		x.safe(st, "string index out of range", v.Pos(), And(Le(IntLit(0), k.T), Lt(k.T, slen(m.T))))
		return Val{T: mk("sat", SInt, m.T, k.T), Typ: v.Type()}
	}
	mt := v.X.Type().Underlying().(*types.Map)
	mr := x.term(st, m)
	kt := x.term(st, k)
	dom := And(Not(Eq(mr, nullRef)), Select(Select(x.heap(st, mapDomKey(mt), &mapDomType{m: mt}), mr), kt))
	var val Val
	if isEmptyStruct(mt.Elem()) {
		val = Val{Typ: mt.Elem(), Fields: []Val{}}
	} else {
		if _, ok := isStruct(mt.Elem()); ok {
			unsup("map of structs")
		}
		raw := Select(Select(x.heap(st, mapValKey(mt), &mapValType{m: mt}), mr), kt)
		st.assume(typeFacts(raw, mt.Elem(), st.next)...)
		val = Val{T: Ite(dom, raw, zeroTerm(mt.Elem())), Typ: mt.Elem()}
	}
	if v.CommaOk {
		return Val{IsTup: true, Typ: v.Type(), Fields: []Val{val, {T: dom, Typ: tBool}}}
	}
	return val
}

func (x *Exec) mapUpdate(st *State, v *ssa.MapUpdate) {
	m := x.term(st, x.val(st, v.Map))
	k := x.term(st, x.val(st, v.Key))
	mt := v.Map.Type().Underlying().(*types.Map)
	x.safe(st, "assignment to entry in nil map", v.Pos(), Not(Eq(m, nullRef)))
	dk := mapDomKey(mt)
	d := x.heap(st, dk, &mapDomType{m: mt})
	n := fresh("H:"+dk, d.Sort)
	st.assume(Eq(n, Store(d, m, Store(Select(d, m), k, True))))
	x.setHeap(st, dk, n)
	if !isEmptyStruct(mt.Elem()) {
		val := x.term(st, x.val(st, v.Value))
		vk := mapValKey(mt)
		h := x.heap(st, vk, &mapValType{m: mt})
		n := fresh("H:"+vk, h.Sort)
		st.assume(Eq(n, Store(h, m, Store(Select(h, m), k, val))))
		x.setHeap(st, vk, n)
	}
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}
