package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is the context in which a spec expression is evaluated.
type Env struct {
	x       *Exec
	prog    *Program
	cur     *HeapView
	old     *HeapView
	loop    *HeapView
	vars    map[string]Val
	resolve func(name string) (Val, bool)
	depth   int
	inRec   string // the recursive function whose body is being elaborated
}

type specErr struct{ msg string }

// unresolved is raised when a spec mentions a local that the code no longer has.
type unresolved struct{ name, pos string }

func (e *Env) with(vars map[string]Val) *Env {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+len(vars))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) fail(ex *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: %s", ex.Pos, fmt.Sprintf(f, a...))})
}

var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
	tStr  = types.Typ[types.String]
)

func (p *Program) resolveType(t *TypeExpr) types.Type {
	if t == nil {
		return tInt
	}
	switch t.Kind {
	case "ptr":
		return types.NewPointer(p.resolveType(t.Elem))
	case "slice":
		return types.NewSlice(p.resolveType(t.Elem))
	case "map":
		return types.NewMap(p.resolveType(t.Key), p.resolveType(t.Elem))
	}
	if t.Pkg == "" {
		switch t.Name {
		case "int":
			return tInt
		case "bool":
			return tBool
		case "string":
			return tStr
		case "ref":
			return types.Typ[types.UnsafePointer]
		case "fn":
			return types.NewSignatureType(nil, nil, nil, nil, nil, false)
		case "error", "any":
			return types.Universe.Lookup(t.Name).Type()
		}
		if o := types.Universe.Lookup(t.Name); o != nil {
			return o.Type()
		}
		panic(specErr{"unknown type " + t.Name})
	}
	path, ok := p.specs.Imports[t.Pkg]
	if !ok {
		panic(specErr{"unknown package alias " + t.Pkg})
	}
	pkg := p.pkgs[path]
	if pkg == nil {
		panic(specErr{"package not loaded " + path})
	}
	o := pkg.Scope().Lookup(t.Name)
	if o == nil {
		panic(specErr{"unknown type " + t.Pkg + "." + t.Name})
	}
	return o.Type()
}

// Bool evaluates a formula.
func (e *Env) Bool(ex *Expr) *Term {
	v := e.force(e.eval(ex))
	if v.T == nil || v.T.Sort != SBool {
		e.fail(ex, "formula expected")
	}
	return v.T
}

func (e *Env) Int(ex *Expr) *Term {
	v := e.scalar(ex)
	if v.Sort != SInt {
		e.fail(ex, "integer expected, got %s", v.Sort)
	}
	return v
}

func (e *Env) scalar(ex *Expr) *Term {
	v := e.force(e.eval(ex))
	return e.asTerm(ex, v)
}

func (e *Env) asTerm(ex *Expr, v Val) *Term {
	v = e.force(v)
	if v.T == nil {
		if v.A != nil && v.A.Cell == nil && (v.A.Key == "" || strings.HasPrefix(v.A.Key, "mem:")) {
			return v.A.Ref
		}
		if v.Clo != nil {
			return e.prog.cloTerm(v.Clo)
		}
		if v.A != nil && v.A.Cell != nil && e.x != nil && e.x.specSt != nil {
			return e.x.term(e.x.specSt, v)
		}
		e.fail(ex, "scalar expected (type %v)", v.Typ)
	}
	return v.T
}

// lvalue marker: a Val with Typ T and lazily loaded address
func (e *Env) force(v Val) Val {
	if v.Lazy != nil {
		return loadView(v.LazyH, v.Lazy)
	}
	return v
}

func (e *Env) flat(ex *Expr, v Val) []*Term {
	v = e.force(v)
	if v.Fields != nil {
		var r []*Term
		for _, f := range v.Fields {
			r = append(r, e.flat(ex, f)...)
		}
		return r
	}
	if v.T == nil && v.Typ != nil && isEmptyStruct(v.Typ) {
		return nil
	}
	return []*Term{e.asTerm(ex, v)}
}

func (e *Env) eq(ex *Expr, a, b Val) *Term {
	a, b = e.force(a), e.force(b)
	if a.Nil && b.Nil {
		return True
	}
	if a.Nil {
		a, b = b, a
	}
	if b.Nil {
		t := e.asTerm(ex, a)
		switch t.Sort {
		case SRef:
			return Eq(t, nullRef)
		case SSlice:
			return Eq(sBase(t), IntLit(0))
		case SIface:
			return Eq(t, nilIface)
		case SFun:
			return Eq(t, nilFun)
		}
		e.fail(ex, "comparison with nil")
	}
	fa, fb := e.flat(ex, a), e.flat(ex, b)
	if len(fa) != len(fb) {
		e.fail(ex, "comparison of different shapes")
	}
	var r []*Term
	for i := range fa {
		if fa[i].Sort != fb[i].Sort {
			e.fail(ex, "comparison of %s and %s", fa[i].Sort, fb[i].Sort)
		}
		r = append(r, Eq(fa[i], fb[i]))
	}
	return And(r...)
}

func (e *Env) eval(ex *Expr) Val {
	switch ex.Op {
	case "int":
		n, ok := new(big.Int).SetString(ex.Name, 0)
		if !ok {
			e.fail(ex, "bad integer")
		}
		return Val{T: BigLit(n), Typ: tInt}
	case "str":
		return Val{T: strConst(ex.Name), Typ: tStr}
	case "bool":
		return Val{T: BoolLit(ex.Name == "true"), Typ: tBool}
	case "nil":
		return Val{Nil: true}
	case "ident":
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		if m, ok := e.prog.specs.Macros[ex.Name]; ok && len(m.Params) == 0 {
			return e.macro(ex, m)
		}
		if r, ok := e.prog.specs.Recs[ex.Name]; ok && len(r.Params) == 0 {
			return e.recCall(ex, r)
		}
		if e.resolve != nil {
			if v, ok := e.resolve(ex.Name); ok {
				return v
			}
		}
		panic(unresolved{ex.Name, ex.Pos})
	case "let":
		v := e.eval(ex.Args[0])
		return e.with(map[string]Val{ex.Name: v}).eval(ex.Args[1])
	case "unary":
		switch ex.Name {
		case "!":
			return Val{T: Not(e.Bool(ex.Args[0])), Typ: tBool}
		case "-":
			return Val{T: Sub(IntLit(0), e.Int(ex.Args[0])), Typ: tInt}
		case "*":
			v := e.force(e.eval(ex.Args[0]))
			return e.derefVal(ex, v)
		}
	case "binary":
		return e.binary(ex)
	case "ite":
		c := e.Bool(ex.Args[0])
		a, b := e.force(e.eval(ex.Args[1])), e.force(e.eval(ex.Args[2]))
		if a.Nil {
			a = Val{T: nullRef, Typ: b.Typ}
		}
		if b.Nil {
			b = Val{T: nullRef, Typ: a.Typ}
		}
		fa, fb := e.flat(ex, a), e.flat(ex, b)
		if len(fa) != len(fb) {
			e.fail(ex, "ite of different shapes")
		}
		if len(fa) == 1 && a.Fields == nil {
			return Val{T: Ite(c, fa[0], fb[0]), Typ: a.Typ}
		}
		var ts []*Term
		for i := range fa {
			ts = append(ts, Ite(c, fa[i], fb[i]))
		}
		v, _ := unflat(a.Typ, ts)
		return v
	case "forall", "exists":
		return e.quant(ex)
	case "field":
		return e.field(ex)
	case "index":
		return e.index(ex)
	case "slice":
		return e.sliceExpr(ex)
	case "call":
		return e.call(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.Op)
	return Val{}
}

func (e *Env) derefVal(ex *Expr, v Val) Val {
	if v.A != nil {
		if v.A.Cell != nil {
			if ref := e.x.specSt.cells[v.A.Cell].ref; ref != nil {
				a := cellHeapAddr(v.A, ref)
				return Val{Typ: a.Typ, Lazy: a, LazyH: e.cur}
			}
			return e.x.load(e.x.specSt, v.A)
		}
		return Val{Typ: v.A.Typ, Lazy: v.A, LazyH: e.cur}
	}
	if v.Typ == nil {
		e.fail(ex, "deref of untyped value")
	}
	pt, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok {
		e.fail(ex, "deref of %v", v.Typ)
	}
	return Val{Typ: pt.Elem(), Lazy: heapAddr(v.T, pt.Elem()), LazyH: e.cur}
}

func (e *Env) binary(ex *Expr) Val {
	op := ex.Name
	b := func(t *Term) Val { return Val{T: t, Typ: tBool} }
	switch op {
	case "&&":
		return b(And(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])))
	case "||":
		return b(Or(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])))
	case "==>":
		return b(Implies(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])))
	case "<==>":
		return b(Eq(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])))
	case "==":
		return b(e.eq(ex, e.eval(ex.Args[0]), e.eval(ex.Args[1])))
	case "!=":
		return b(Not(e.eq(ex, e.eval(ex.Args[0]), e.eval(ex.Args[1]))))
	case "<", "<=", ">", ">=":
		return b(cmpT(op, e.Int(ex.Args[0]), e.Int(ex.Args[1])))
	case "+":
		x, y := e.scalar(ex.Args[0]), e.scalar(ex.Args[1])
		if x.Sort == SStr {
			return Val{T: mk("cat", SStr, x, y), Typ: tStr}
		}
		return Val{T: Add(x, y), Typ: tInt}
	case "-":
		return Val{T: Sub(e.Int(ex.Args[0]), e.Int(ex.Args[1])), Typ: tInt}
	case "*":
		return Val{T: Mul(e.Int(ex.Args[0]), e.Int(ex.Args[1])), Typ: tInt}
	case "/":
		return Val{T: mk("div", SInt, e.Int(ex.Args[0]), e.Int(ex.Args[1])), Typ: tInt}
	case "%":
		return Val{T: mk("mod", SInt, e.Int(ex.Args[0]), e.Int(ex.Args[1])), Typ: tInt}
	}
	e.fail(ex, "operator %s", op)
	return Val{}
}

// patTerms lists the parts of t that a trigger can hold (no logical
// connectives).
func patTerms(t *Term) []*Term {
	switch t.Op {
	case "and", "or", "=>":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, patTerms(a)...)
		}
		return r
	case "not", "=", "<=", "<":
		return nil
	}
	return []*Term{t}
}

func (e *Env) quant(ex *Expr) Val {
	vars := map[string]Val{}
	var bound []*Term
	var guard []*Term
	for _, p := range ex.Vars {
		t := e.prog.resolveType(p.Type)
		freshCtr++
		if _, ok := isStruct(t); ok {
			var ts []*Term
			for _, s := range flatSorts(t) {
				freshCtr++
				ts = append(ts, mk(fmt.Sprintf("%s?%d", strings.ReplaceAll(p.Name, "'", "_"), freshCtr), s))
			}
			v, _ := unflat(t, ts)
			vars[p.Name] = v
			bound = append(bound, ts...)
			continue
		}
		c := mk(fmt.Sprintf("%s?%d", strings.ReplaceAll(p.Name, "'", "_"), freshCtr), sortOf(t))
		vars[p.Name] = Val{T: c, Typ: t}
		bound = append(bound, c)
	}
	n := e.with(vars)
	body := n.Bool(ex.Args[0])
	var pats [][]*Term
	for _, ps := range ex.Pats {
		var q []*Term
		for _, p := range ps {
			v := n.eval(p)
			if v.Lazy != nil && v.Lazy.Ref != nil && v.Lazy.Key == "" && !isEmptyStruct(v.Lazy.Typ) {
				// a struct in memory: its location stands for all of its fields
				q = append(q, patTerms(v.Lazy.Ref)...)
				continue
			}
			for _, t := range n.flat(p, v) {
				q = append(q, patTerms(t)...)
			}
		}
		pats = append(pats, q)
	}
	if ex.Op == "forall" {
		return Val{T: Forall(bound, pats, Implies(And(guard...), body)), Typ: tBool}
	}
	return Val{T: Exists(bound, pats, And(And(guard...), body)), Typ: tBool}
}

func (e *Env) field(ex *Expr) Val {
	if ex.Args[0].Op == "ident" {
		n := ex.Args[0].Name
		if _, ok := e.vars[n]; !ok {
			if path, ok := e.prog.specs.Imports[n]; ok {
				return e.pkgMember(ex, path, ex.Name)
			}
		}
	}
	v := e.eval(ex.Args[0])
	return e.fieldOf(ex, v, ex.Name)
}

func (e *Env) pkgMember(ex *Expr, path, name string) Val {
	pkg := e.prog.pkgs[path]
	if pkg == nil {
		e.fail(ex, "package %s not loaded", path)
	}
	o := pkg.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return Val{T: BigLit(n), Typ: tInt}
		case constant.String:
			return Val{T: strConst(constant.StringVal(o.Val())), Typ: tStr}
		case constant.Bool:
			return Val{T: BoolLit(constant.BoolVal(o.Val())), Typ: tBool}
		}
	case *types.Var:
		sp := e.prog.ssa.Package(pkg)
		if sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				return Val{Typ: o.Type(), Lazy: heapAddr(e.prog.globalRef(g), o.Type()), LazyH: e.cur}
			}
		}
	}
	panic(unresolved{path + "." + name, ex.Pos})
}

func (e *Env) fieldOf(ex *Expr, v Val, name string) Val {
	// pointer: dereference
	if v.Lazy != nil {
		if _, ok := isStruct(v.Typ); ok {
			s, _ := isStruct(v.Typ)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					a := fieldAddr(v.Lazy, i)
					return Val{Typ: a.Typ, Lazy: a, LazyH: v.LazyH}
				}
			}
			panic(unresolved{name + " of " + v.Typ.String(), ex.Pos})
		}
		v = e.force(v)
	}
	if v.Typ == nil {
		e.fail(ex, "field %s of untyped value", name)
	}
	if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
		return e.fieldOf(ex, e.derefVal(ex, v), name)
	}
	s, ok := isStruct(v.Typ)
	if !ok {
		e.fail(ex, "field %s of %v", name, v.Typ)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return v.Fields[i]
		}
	}
	panic(unresolved{name + " of " + v.Typ.String(), ex.Pos})
}

func (e *Env) index(ex *Expr) Val {
	v := e.force(e.eval(ex.Args[0]))
	if v.Typ == nil {
		e.fail(ex, "index of untyped value")
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		i := e.Int(ex.Args[1])
		a := heapAddr(atRef(e.asTerm(ex, v), i), u.Elem())
		return Val{Typ: u.Elem(), Lazy: a, LazyH: e.cur}
	case *types.Basic:
		return Val{T: mk("sat", SInt, v.T, e.Int(ex.Args[1])), Typ: tInt}
	case *types.Map:
		k := e.scalar(ex.Args[1])
		m := e.asTerm(ex, v)
		return Val{T: Select(Select(e.cur.get(mapValKey(u), &mapValType{m: u}), m), k), Typ: u.Elem()}
	}
	e.fail(ex, "index of %v", v.Typ)
	return Val{}
}

func mapDomKey(m *types.Map) string {
	return "mapdom:" + shortType(m.Key()) + ":" + shortType(m.Elem())
}
func mapValKey(m *types.Map) string {
	return "mapval:" + shortType(m.Key()) + ":" + shortType(m.Elem())
}

func (e *Env) sliceExpr(ex *Expr) Val {
	v := e.force(e.eval(ex.Args[0]))
	t := e.asTerm(ex, v)
	lo := IntLit(0)
	if ex.Args[1] != nil {
		lo = e.Int(ex.Args[1])
	}
	switch t.Sort {
	case SStr:
		hi := slen(t)
		if ex.Args[2] != nil {
			hi = e.Int(ex.Args[2])
		}
		return Val{T: substr(t, lo, hi), Typ: v.Typ}
	case SSlice:
		hi := sLen(t)
		if ex.Args[2] != nil {
			hi = e.Int(ex.Args[2])
		}
		return Val{T: mkSlice(sBase(t), Add(sOff(t), lo), Sub(hi, lo), Sub(sCap(t), lo)), Typ: v.Typ}
	}
	e.fail(ex, "slice of %v", v.Typ)
	return Val{}
}

func substr(s, lo, hi *Term) *Term { return mk("substr", SStr, s, lo, hi) }

func (e *Env) call(ex *Expr) Val {
	arg := func(i int) *Term { return e.scalar(ex.Args[i]) }
	switch ex.Name {
	case "len":
		t := arg(0)
		switch t.Sort {
		case SStr:
			return Val{T: slen(t), Typ: tInt}
		case SSlice:
			return Val{T: sLen(t), Typ: tInt}
		}
		e.fail(ex, "len of %s", t.Sort)
	case "cap":
		return Val{T: sCap(arg(0)), Typ: tInt}
	case "base":
		t := arg(0)
		if t.Sort == SSlice {
			return Val{T: sBase(t), Typ: tInt}
		}
		return Val{T: aid(t), Typ: tInt}
	case "off":
		return Val{T: sOff(arg(0)), Typ: tInt}
	case "old":
		if e.old == nil {
			e.fail(ex, "old not available")
		}
		n := *e
		n.cur = e.old
		v := n.eval(ex.Args[0])
		if v.Lazy != nil {
			return v
		}
		return v
	case "atloop":
		if e.loop == nil {
			e.fail(ex, "atloop not available")
		}
		n := *e
		n.cur = e.loop
		return n.eval(ex.Args[0])
	case "ref": // ref(s, i): location of element i of slice s
		return Val{T: atRef(arg(0), e.Int(ex.Args[1])), Typ: types.Typ[types.UnsafePointer]}
	case "addr": // pointer as location
		return Val{T: arg(0), Typ: types.Typ[types.UnsafePointer]}
	case "aid":
		return Val{T: aid(arg(0)), Typ: tInt}
	case "rix":
		return Val{T: rix(arg(0)), Typ: tInt}
	case "fresh": // allocated by this call
		t := arg(0)
		if t.Sort == SSlice {
			return Val{T: Le(e.old.next, sBase(t)), Typ: tBool}
		}
		return Val{T: Le(e.old.next, aid(t)), Typ: tBool}
	case "allocated":
		t := arg(0)
		if t.Sort == SSlice {
			return Val{T: Lt(sBase(t), e.cur.next), Typ: tBool}
		}
		return Val{T: And(Lt(aid(t), e.cur.next), Le(IntLit(0), aid(t))), Typ: tBool}
	case "next":
		return Val{T: e.cur.next, Typ: tInt}
	case "mine": // ghost: taken from a pool and not given back
		v := e.force(e.eval(ex.Args[0]))
		return Val{T: Select(e.cur.get(poolKey+shortType(deref(v.Typ)), types.Typ[types.Bool]), e.asTerm(ex, v)), Typ: tBool}
	case "ghost":
		if ex.Args[0].Op != "str" {
			e.fail(ex, "ghost name")
		}
		n := ex.Args[0].Name
		t := e.cur.ghost(n)
		switch ghostSort(n) {
		case SStr:
			return Val{T: t, Typ: tStr}
		case SInt:
			return Val{T: t, Typ: tInt}
		}
		return Val{T: Select(t, arg(1)), Typ: tBool}
	case "dom":
		v := e.force(e.eval(ex.Args[0]))
		u, ok := v.Typ.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "dom of %v", v.Typ)
		}
		m := e.asTerm(ex, v)
		return Val{T: And(Not(Eq(m, nullRef)), Select(Select(e.cur.get(mapDomKey(u), &mapDomType{m: u}), m), arg(1))), Typ: tBool}
	case "rc", "ridx", "bp", "runeAt": // characters of a string
		if ex.Name == "rc" {
			return Val{T: mk("rc", SInt, arg(0)), Typ: tInt}
		}
		return Val{T: mk(ex.Name, SInt, arg(0), e.Int(ex.Args[1])), Typ: tInt}
	case "isB": // a character starts (or the string ends) at this byte offset
		return Val{T: mk("isB", SBool, arg(0), e.Int(ex.Args[1])), Typ: tBool}
	case "bstr": // contents of a []byte as a string
		return Val{T: mk("bstr", SStr, e.cur.get("mem:"+shortType(types.Typ[types.Byte]), types.Typ[types.Byte]), arg(0)), Typ: tStr}
	case "heap": // heap("key"): the raw heap array; only for rec function arguments
		e.fail(ex, "heap not available")
	case "same": // same("key"): this heap component is unchanged since the old state
		k := ex.Args[0].Name
		typ, ok := e.prog.keyTypes[k]
		if !ok {
			return Val{T: True, Typ: tBool}
		}
		return Val{T: Eq(e.cur.get(k, typ), e.old.get(k, typ)), Typ: tBool}
	case "dyn": // dyn(v, "type", E): E holds of $dyn, the value in interface v, if it is known to have that type
		v := e.force(e.eval(ex.Args[0]))
		if v.Dyn == nil || ex.Args[1].Op != "str" || shortType(v.Dyn.Typ) != ex.Args[1].Name {
			return Val{T: True, Typ: tBool}
		}
		n := *e
		n.vars = map[string]Val{}
		for k, w := range e.vars {
			n.vars[k] = w
		}
		n.vars["$dyn"] = *v.Dyn
		return Val{T: n.Bool(ex.Args[2]), Typ: tBool}
	}
	if m, ok := e.prog.specs.Macros[ex.Name]; ok {
		return e.macro(ex, m)
	}
	if r, ok := e.prog.specs.Recs[ex.Name]; ok {
		return e.recCall(ex, r)
	}
	for i, l := range e.prog.specs.Lemmas {
		if l.Name == ex.Name {
			return e.lemmaCall(ex, l, i)
		}
	}
	e.fail(ex, "unknown function %s", ex.Name)
	return Val{}
}

// lemmaCall is the instance of a proved lemma (or, inside the lemma itself, of
// the induction hypothesis): requirements imply conclusions.
func (e *Env) lemmaCall(ex *Expr, l *Lemma, idx int) Val {
	if len(ex.Args) != len(l.Params) {
		e.fail(ex, "%s: %d arguments, want %d", l.Name, len(ex.Args), len(l.Params))
	}
	p := e.prog
	if p.lemmaOn && idx > p.curLemma || idx == p.curLemma && p.lemmaOn && l.Induct == nil {
		e.fail(ex, "lemma %s is not available here", l.Name)
	}
	if !(&Clause{Labels: l.Labels}).has(p.prop) {
		return Val{T: True, Typ: tBool}
	}
	vars := map[string]Val{}
	for i, q := range l.Params {
		t := p.resolveType(q.Type)
		v := e.force(e.eval(ex.Args[i]))
		if v.Nil {
			v = Val{T: zeroTerm(t)}
		}
		v.Typ = t
		vars[q.Name] = v
	}
	n := *e
	n.vars = vars
	n.resolve = nil
	n.depth++
	var pre, post []*Term
	if p.lemmaOn && idx == p.curLemma {
		m := n.Int(l.Induct)
		pre = append(pre, Le(IntLit(0), m), Lt(m, p.curMeasure))
	}
	for _, r := range l.Requires {
		pre = append(pre, n.Bool(r))
	}
	for _, r := range l.Ensures {
		post = append(post, n.Bool(r))
	}
	return Val{T: Implies(And(pre...), And(post...)), Typ: tBool}
}

// isLemmaExpr: the expression holds because lemmas hold.
func (p *Program) isLemmaExpr(ex *Expr) bool {
	switch {
	case ex.Op == "call":
		for _, l := range p.specs.Lemmas {
			if l.Name == ex.Name {
				return true
			}
		}
	case ex.Op == "binary" && ex.Name == "==>":
		return p.isLemmaExpr(ex.Args[1])
	case ex.Op == "binary" && ex.Name == "&&":
		return p.isLemmaExpr(ex.Args[0]) && p.isLemmaExpr(ex.Args[1])
	case ex.Op == "forall":
		return p.isLemmaExpr(ex.Args[0])
	}
	return false
}

func (e *Env) macro(ex *Expr, m *Macro) Val {
	if len(ex.Args) != len(m.Params) {
		e.fail(ex, "%s: %d arguments, want %d", m.Name, len(ex.Args), len(m.Params))
	}
	if e.depth > 60 {
		e.fail(ex, "macro recursion in %s", m.Name)
	}
	vars := map[string]Val{}
	for i, p := range m.Params {
		v := e.force(e.eval(ex.Args[i]))
		if p.Type != nil && v.A == nil && v.Fields == nil && !v.Nil {
			v.Typ = e.prog.resolveType(p.Type)
		}
		if v.Nil && p.Type != nil {
			v = Val{T: zeroTerm(e.prog.resolveType(p.Type)), Typ: e.prog.resolveType(p.Type)}
		}
		vars[p.Name] = v
	}
	n := *e
	n.vars = vars
	for k, v := range e.vars {
		if strings.HasPrefix(k, "$") {
			n.vars[k] = v
		}
	}
	n.resolve = nil
	n.depth++
	return n.eval(m.E)
}

// recInfo describes the SMT encoding of a (recursive) spec function.
type recInfo struct {
	r     *RecFn
	keys  []string // heap components read
	sorts []string
	ret   types.Type
	done  bool
	ax    []*Term
}

func (p *Program) recInfo(r *RecFn) *recInfo {
	if ri, ok := p.recs[r.Name]; ok {
		return ri
	}
	ri := &recInfo{r: r, ret: p.resolveType(r.Ret)}
	p.recs[r.Name] = ri
	var params []*Term
	vars := map[string]Val{}
	for _, q := range r.Params {
		t := p.resolveType(q.Type)
		var ts []*Term
		for j, s := range flatSorts(t) {
			c := mk(fmt.Sprintf("%s?p%d", q.Name, j), s)
			ts = append(ts, c)
			params = append(params, c)
			ri.sorts = append(ri.sorts, s)
		}
		v, _ := unflat(t, ts)
		vars[q.Name] = v
	}
	if r.E == nil {
		ri.done = true
		return ri
	}
	// pass 1: find heap components (least fixpoint over the recursion)
	heapVar := func(key string, typ types.Type) *Term {
		return mk(smtSym("h?"+key), arrSort(sortOfKey(key, typ)))
	}
	var body *Term
	for {
		seen := map[string]bool{}
		for _, k := range ri.keys {
			seen[k] = true
		}
		hv := &HeapView{next: mk("next0", SInt), get: func(key string, typ types.Type) *Term {
			p.keyTypes[key] = typ
			if !seen[key] {
				seen[key] = true
			}
			return heapVar(key, typ)
		}}
		env := &Env{prog: p, cur: hv, vars: vars, inRec: r.Name}
		if ri.ret == tBool || sortOf(ri.ret) == SBool {
			body = env.Bool(r.E)
		} else {
			body = env.scalar(r.E)
		}
		ks := sortedKeys(seen)
		if len(ks) == len(ri.keys) {
			break
		}
		ri.keys = ks
	}
	for _, k := range ri.keys {
		params = append(params, heapVar(k, p.keyTypes[k]))
		ri.sorts = append(ri.sorts, arrSort(sortOfKey(k, p.keyTypes[k])))
	}
	ri.done = true
	if len(ri.keys) > 0 && len(p.sccOf(r.Name)) > 1 {
		panic(specErr{fmt.Sprintf("%s: mutual recursion over the heap", r.Name)})
	}
	// fuel encoding: name$N unfolds to name$(N-1); name$0 is opaque; all equal
	rs := sortOf(ri.ret)
	for f := r.Fuel; f >= 1; f-- {
		lhs := mk(fmt.Sprintf("%s$%d", r.Name, f), rs, params...)
		low := mk(fmt.Sprintf("%s$%d", r.Name, f-1), rs, params...)
		b := body
		for _, n := range p.sccOf(r.Name) {
			b = renameSym(b, n+"$REC", fmt.Sprintf("%s$%d", n, f-1))
		}
		ri.ax = append(ri.ax,
			Forall(params, [][]*Term{{lhs}}, Eq(lhs, b)),
			Forall(params, [][]*Term{{lhs}}, Eq(lhs, low)))
	}
	return ri
}

// sccOf lists the recursive functions that call each other with n.
func (p *Program) sccOf(n string) []string {
	if p.sccs == nil {
		p.sccs = map[string][]string{}
		direct := map[string]map[string]bool{}
		var walk func(e *Expr, m map[string]bool, seen map[string]bool)
		walk = func(e *Expr, m map[string]bool, seen map[string]bool) {
			if e == nil {
				return
			}
			if e.Op == "call" {
				if _, ok := p.specs.Recs[e.Name]; ok {
					m[e.Name] = true
				}
				if mc, ok := p.specs.Macros[e.Name]; ok && !seen[e.Name] {
					seen[e.Name] = true
					walk(mc.E, m, seen)
				}
			}
			for _, a := range e.Args {
				walk(a, m, seen)
			}
		}
		for k, r := range p.specs.Recs {
			direct[k] = map[string]bool{}
			walk(r.E, direct[k], map[string]bool{})
		}
		reach := func(k string) map[string]bool {
			m := map[string]bool{}
			st := sortedKeys(direct[k])
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if !m[x] {
					m[x] = true
					st = append(st, sortedKeys(direct[x])...)
				}
			}
			return m
		}
		rs := map[string]map[string]bool{}
		for k := range direct {
			rs[k] = reach(k)
		}
		for _, k := range sortedKeys(direct) {
			l := []string{k}
			for _, j := range sortedKeys(direct) {
				if j != k && rs[k][j] && rs[j][k] {
					l = append(l, j)
				}
			}
			p.sccs[k] = l
		}
	}
	return p.sccs[n]
}

func renameSym(t *Term, from, to string) *Term {
	if len(t.Args) == 0 {
		if t.Op == from {
			return mk(to, t.Sort)
		}
		return t
	}
	n := &Term{Op: t.Op, Sort: t.Sort, Vars: t.Vars}
	if n.Op == from {
		n.Op = to
	}
	for _, a := range t.Args {
		n.Args = append(n.Args, renameSym(a, from, to))
	}
	for _, p := range t.Pats {
		var q []*Term
		for _, a := range p {
			q = append(q, renameSym(a, from, to))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}

func (e *Env) recCall(ex *Expr, r *RecFn) Val {
	if len(ex.Args) != len(r.Params) {
		e.fail(ex, "%s: %d arguments, want %d", r.Name, len(ex.Args), len(r.Params))
	}
	var args []*Term
	for i, a := range ex.Args {
		v := e.force(e.eval(a))
		t := e.prog.resolveType(r.Params[i].Type)
		if v.Nil {
			args = append(args, zeroTerm(t))
			continue
		}
		fs := e.flat(a, v)
		want := flatSorts(t)
		if len(fs) != len(want) {
			e.fail(a, "argument %d of %s has the wrong shape", i, r.Name)
		}
		for j := range fs {
			if fs[j].Sort != want[j] {
				e.fail(a, "argument %d of %s: sort %s, want %s", i, r.Name, fs[j].Sort, want[j])
			}
		}
		args = append(args, fs...)
	}
	ri := e.prog.recInfo(r)
	rs := sortOf(ri.ret)
	if r.E == nil {
		return Val{T: mk(r.Name, rs, args...), Typ: ri.ret}
	}
	name := r.Name + "$REC"
	for _, k := range ri.keys {
		args = append(args, e.cur.get(k, e.prog.keyTypes[k]))
	}
	inSCC := false
	if e.inRec != "" {
		for _, n := range e.prog.sccOf(e.inRec) {
			inSCC = inSCC || n == r.Name
		}
	}
	if ri.done && !inSCC {
		name = fmt.Sprintf("%s$%d", r.Name, r.Fuel)
	}
	return Val{T: mk(name, rs, args...), Typ: ri.ret}
}
