package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsupported is raised (as a panic) when the code leaves the subset gvc handles.
type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// Val is a symbolic value.
type Val struct {
	T      *Term      // scalar
	Typ    types.Type // Go type (nil for purely logical values)
	Fields []Val      // struct or tuple
	IsTup  bool
	A      *Addr    // meta level address (pointer values only)
	Clo    *Closure // known function value
	Dyn    *Val     // known dynamic value of an interface
	It     *IterVal // string iterator
	Nil    bool     // the untyped nil of a spec expression
	Lazy   *Addr    // spec lvalue, loaded on demand from LazyH
	LazyH  *HeapView
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	sym   string
}

type IterVal struct {
	Str  *Term
	Cell *Cell // holds the rune index
}

// Addr is an lvalue: a local cell (with a field path), or a heap location.
type Addr struct {
	Cell *Cell
	Path []int
	// heap
	Ref *Term
	Key string // scalar location; empty for a struct location
	Typ types.Type
}

type Cell struct {
	Name string
	Typ  types.Type
	ID   int
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported{fmt.Sprintf("deref of %v", t)})
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func shortQual(p *types.Package) string {
	if strings.Contains(p.Path(), "/cmd/") {
		return "cmd_" + p.Name()
	}
	return p.Name()
}

func shortType(t types.Type) string { return types.TypeString(normType(types.Unalias(t)), shortQual) }

// normType names byte and rune by their canonical names.
func normType(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return types.Typ[types.Uint8]
		case types.Int32:
			return types.Typ[types.Int32]
		}
	case *types.Slice:
		return types.NewSlice(normType(types.Unalias(u.Elem())))
	case *types.Pointer:
		return types.NewPointer(normType(types.Unalias(u.Elem())))
	}
	return t
}

func fieldKey(st types.Type, s *types.Struct, i int) string {
	return shortType(st) + "." + s.Field(i).Name()
}

func memKey(t types.Type) string { return "mem:" + shortType(t) }

// sortOf returns the SMT sort of a scalar Go type.
func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UntypedNil:
			return SRef
		case u.Kind() == types.UnsafePointer:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFun
	}
	unsup("no sort for type %v", t)
	return ""
}

func intRange(t types.Type) (lo, hi string, bits int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", 8, true
	case types.Int16:
		return "-32768", "32767", 16, true
	case types.Int32:
		return "-2147483648", "2147483647", 32, true
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", 64, true
	case types.Uint8:
		return "0", "255", 8, false
	case types.Uint16:
		return "0", "65535", 16, false
	case types.Uint32:
		return "0", "4294967295", 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", 64, false
	}
	return
}

var (
	nullRef  = mk("null", SRef)
	nilSlice = mk("nilS", SSlice)
	nilIface = mk("nilI", SIface)
	nilFun   = mk("nilF", SFun)
	fltZero  = mk("flt0", SFlt)
)

func sBase(s *Term) *Term {
	if s.Op == "mkS" {
		return s.Args[0]
	}
	return mk("sb", SInt, s)
}
func sOff(s *Term) *Term {
	if s.Op == "mkS" {
		return s.Args[1]
	}
	return mk("so", SInt, s)
}
func sLen(s *Term) *Term {
	if s.Op == "mkS" {
		return s.Args[2]
	}
	if s.Op == "nilS" {
		return IntLit(0)
	}
	return mk("sl", SInt, s)
}
func sCap(s *Term) *Term {
	if s.Op == "mkS" {
		return s.Args[3]
	}
	if s.Op == "nilS" {
		return IntLit(0)
	}
	return mk("sc", SInt, s)
}
func mkSlice(b, o, l, c *Term) *Term { return mk("mkS", SSlice, b, o, l, c) }
func objRef(id *Term) *Term          { return mk("obj", SRef, id) }
func elemRef(b, i *Term) *Term       { return mk("elem", SRef, b, i) }
func fldRef(r *Term, k int) *Term    { return mk("fld", SRef, r, IntLit(int64(k))) }
func aid(r *Term) *Term {
	switch r.Op {
	case "obj", "elem":
		return r.Args[0]
	case "fld":
		return aid(r.Args[0])
	case "null":
		return IntLit(0)
	}
	return mk("aid", SInt, r)
}

// atRef is the location of element i of slice s.
func atRef(s, i *Term) *Term { return mk("at", SRef, s, i) }

func slen(s *Term) *Term {
	if s.Op == emptyStr().Op {
		return IntLit(0)
	}
	return mk("slen", SInt, s)
}

// string constants
var strConsts = map[string]string{} // value -> symbol
var strVals = map[string]string{}   // symbol -> value

func strConst(v string) *Term {
	if s, ok := strConsts[v]; ok {
		return mk(s, SStr)
	}
	s := fmt.Sprintf("str!%d", len(strConsts))
	strConsts[v] = s
	strVals[s] = v
	return mk(s, SStr)
}
func emptyStr() *Term { return strConst("") }

func zeroTerm(t types.Type) *Term {
	switch sortOf(t) {
	case SInt:
		return IntLit(0)
	case SBool:
		return False
	case SStr:
		return emptyStr()
	case SRef:
		return nullRef
	case SSlice:
		return nilSlice
	case SIface:
		return nilIface
	case SFun:
		return nilFun
	case SFlt:
		return fltZero
	}
	panic("zero")
}

func zeroVal(t types.Type) Val {
	if s, ok := isStruct(t); ok {
		v := Val{Typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.Fields = append(v.Fields, zeroVal(s.Field(i).Type()))
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{Typ: t, IsTup: true}
		for i := 0; i < tp.Len(); i++ {
			v.Fields = append(v.Fields, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		unsup("array value %v", t)
	}
	return Val{T: zeroTerm(t), Typ: t}
}

func scalar(t *Term, typ types.Type) Val { return Val{T: t, Typ: typ} }

// flat lists the scalar terms of a value.
func (v Val) flat() []*Term {
	if v.Fields != nil || v.T == nil && v.Typ != nil && isEmptyStruct(v.Typ) {
		var r []*Term
		for _, f := range v.Fields {
			r = append(r, f.flat()...)
		}
		return r
	}
	if v.T == nil {
		panic(unsupported{fmt.Sprintf("no term for value of type %v", v.Typ)})
	}
	return []*Term{v.T}
}

func isEmptyStruct(t types.Type) bool {
	s, ok := isStruct(t)
	return ok && s.NumFields() == 0
}

func flatSorts(t types.Type) []string {
	if s, ok := isStruct(t); ok {
		var r []string
		for i := 0; i < s.NumFields(); i++ {
			r = append(r, flatSorts(s.Field(i).Type())...)
		}
		return r
	}
	return []string{sortOf(t)}
}

// unflat rebuilds a value of type t from scalar terms.
func unflat(t types.Type, ts []*Term) (Val, []*Term) {
	if s, ok := isStruct(t); ok {
		v := Val{Typ: t, Fields: []Val{}}
		for i := 0; i < s.NumFields(); i++ {
			var f Val
			f, ts = unflat(s.Field(i).Type(), ts)
			v.Fields = append(v.Fields, f)
		}
		return v, ts
	}
	return Val{T: ts[0], Typ: t}, ts[1:]
}
