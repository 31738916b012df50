package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an SMT-LIB term.
type Term struct {
	Op   string // function symbol, constant, literal; "forall"/"exists" for quantifiers
	Args []*Term
	Sort string
	Vars []*Term   // bound variables
	Pats [][]*Term // triggers
	str  string
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SStr   = "Str"
	SRef   = "Ref"
	SSlice = "Slice"
	SIface = "Iface"
	SFun   = "Fun"
	SFlt   = "Flt"
)

func arrSort(v string) string { return "(Array Ref " + v + ")" }

func elemSort(arr string) string {
	if !strings.HasPrefix(arr, "(Array ") {
		panic("not an array sort: " + arr)
	}
	_, v := arrParts(arr)
	return v
}

func arrParts(arr string) (string, string) {
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + arr)
}

func mk(op, srt string, args ...*Term) *Term { return &Term{Op: op, Sort: srt, Args: args} }

func IntLit(n int64) *Term    { return mk(fmt.Sprint(n), SInt) }
func BigLit(n *big.Int) *Term { return mk(n.String(), SInt) }

var True, False = mk("true", SBool), mk("false", SBool)

func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isLit() (*big.Int, bool) {
	if t.Sort != SInt || len(t.Args) != 0 || t.Op == "" {
		return nil, false
	}
	c := t.Op[0]
	if c == '-' || (c >= '0' && c <= '9') {
		n, ok := new(big.Int).SetString(t.Op, 10)
		return n, ok
	}
	return nil, false
}

func smtSym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("~!@$%^&*_-+=<>.?/", c)) {
			ok = false
			break
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var s string
	switch {
	case t.Op == "forall" || t.Op == "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(&b, "(%s %s)", v.Op, v.Sort)
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! " + t.Args[0].String())
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteString(" ")
					}
					b.WriteString(x.String())
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(t.Args[0].String())
		}
		b.WriteString(")")
		s = b.String()
	case len(t.Args) == 0:
		s = t.Op
		if n, ok := t.isLit(); ok && n.Sign() < 0 {
			s = "(- " + new(big.Int).Neg(n).String() + ")"
		}
	default:
		var b strings.Builder
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteString(" ")
			b.WriteString(a.String())
		}
		b.WriteString(")")
		s = b.String()
	}
	t.str = s
	return s
}

func eqT(a, b *Term) bool { return a == b || (a.Sort == b.Sort && a.String() == b.String()) }

func isTrue(t *Term) bool  { return t.Op == "true" }
func isFalse(t *Term) bool { return t.Op == "false" }

func Not(a *Term) *Term {
	switch {
	case isTrue(a):
		return False
	case isFalse(a):
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, a)
}

func And(as ...*Term) *Term {
	var r []*Term
	for _, a := range as {
		if isTrue(a) {
			continue
		}
		if isFalse(a) {
			return False
		}
		if a.Op == "and" {
			r = append(r, a.Args...)
			continue
		}
		r = append(r, a)
	}
	switch len(r) {
	case 0:
		return True
	case 1:
		return r[0]
	}
	return mk("and", SBool, r...)
}

func Or(as ...*Term) *Term {
	var r []*Term
	for _, a := range as {
		if isFalse(a) {
			continue
		}
		if isTrue(a) {
			return True
		}
		r = append(r, a)
	}
	switch len(r) {
	case 0:
		return False
	case 1:
		return r[0]
	}
	return mk("or", SBool, r...)
}

func Implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return True
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if eqT(a, b) {
		return a
	}
	if a.Sort == SBool {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return Not(c)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if eqT(a, b) {
		return True
	}
	if x, ok := a.isLit(); ok {
		if y, ok := b.isLit(); ok {
			return BoolLit(x.Cmp(y) == 0)
		}
	}
	if a.Sort == SBool {
		switch {
		case isTrue(a):
			return b
		case isTrue(b):
			return a
		case isFalse(a):
			return Not(b)
		case isFalse(b):
			return Not(a)
		}
	}
	if strings.HasPrefix(a.Op, "str!") && strings.HasPrefix(b.Op, "str!") && len(a.Args) == 0 && len(b.Args) == 0 {
		return False
	}
	return mk("=", SBool, a, b)
}

func Add(a, b *Term) *Term {
	x, ok1 := a.isLit()
	y, ok2 := b.isLit()
	if ok1 && ok2 {
		return BigLit(new(big.Int).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	// (c + lit) + lit
	if ok2 && a.Op == "+" && len(a.Args) == 2 {
		if z, ok := a.Args[1].isLit(); ok {
			return Add(a.Args[0], BigLit(new(big.Int).Add(z, y)))
		}
	}
	return mk("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if y, ok := b.isLit(); ok {
		return Add(a, BigLit(new(big.Int).Neg(y)))
	}
	if eqT(a, b) {
		return IntLit(0)
	}
	return mk("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	x, ok1 := a.isLit()
	y, ok2 := b.isLit()
	if ok1 && ok2 {
		return BigLit(new(big.Int).Mul(x, y))
	}
	if ok1 && x.IsInt64() && x.Int64() == 1 {
		return b
	}
	if ok2 && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	if !ok1 && !ok2 { // products of two unknowns are kept away from the solvers' nonlinear reasoning
		return mk("imul", SInt, a, b)
	}
	return mk("*", SInt, a, b)
}

func cmpT(op string, a, b *Term) *Term {
	x, ok1 := a.isLit()
	y, ok2 := b.isLit()
	if ok1 && ok2 {
		c := x.Cmp(y)
		switch op {
		case "<":
			return BoolLit(c < 0)
		case "<=":
			return BoolLit(c <= 0)
		case ">":
			return BoolLit(c > 0)
		case ">=":
			return BoolLit(c >= 0)
		}
	}
	if eqT(a, b) {
		return BoolLit(op == "<=" || op == ">=")
	}
	return mk(op, SBool, a, b)
}

func Lt(a, b *Term) *Term { return cmpT("<", a, b) }
func Le(a, b *Term) *Term { return cmpT("<=", a, b) }

func Select(arr, i *Term) *Term {
	if arr.Op == "store" {
		if eqT(arr.Args[1], i) {
			return arr.Args[2]
		}
	}
	return mk("select", elemSort(arr.Sort), arr, i)
}
func Store(arr, i, v *Term) *Term { return mk("store", arr.Sort, arr, i, v) }

func Forall(vs []*Term, pats [][]*Term, body *Term) *Term {
	if isTrue(body) {
		return True
	}
	if len(vs) == 0 {
		return body
	}
	return &Term{Op: "forall", Sort: SBool, Vars: vs, Pats: pats, Args: []*Term{body}}
}
func Exists(vs []*Term, pats [][]*Term, body *Term) *Term {
	if isFalse(body) || isTrue(body) {
		return body
	}
	return &Term{Op: "exists", Sort: SBool, Vars: vs, Pats: pats, Args: []*Term{body}}
}

// subst replaces free constants by name.
func (t *Term) subst(m map[string]*Term) *Term {
	if len(t.Args) == 0 {
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a.subst(m)
		ch = ch || args[i] != a
	}
	var pats [][]*Term
	for _, p := range t.Pats {
		var q []*Term
		for _, x := range p {
			y := x.subst(m)
			ch = ch || y != x
			q = append(q, y)
		}
		pats = append(pats, q)
	}
	if !ch {
		return t
	}
	return &Term{Op: t.Op, Sort: t.Sort, Args: args, Vars: t.Vars, Pats: pats}
}

// syms collects symbols occurring in the term (function symbols and constants, excluding bound ones).
func (t *Term) hasQuant() bool {
	if t == nil {
		return false
	}
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if a.hasQuant() {
			return true
		}
	}
	return false
}

func (t *Term) syms(out map[string]*Term) {
	if t == nil {
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		inner := map[string]*Term{}
		for _, a := range t.Args {
			a.syms(inner)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				x.syms(inner)
			}
		}
		for _, v := range t.Vars {
			delete(inner, v.Op)
		}
		for k, v := range inner {
			out[k] = v
		}
		return
	}
	if _, ok := out[t.Op]; !ok {
		out[t.Op] = t
	}
	for _, a := range t.Args {
		a.syms(out)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// S-expression reader for the theory prelude.
type sexp struct {
	atom string
	list []*sexp
	isL  bool
}

func parseSexps(src string) []*sexp {
	var stack [][]*sexp
	cur := []*sexp{}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '(':
			stack = append(stack, cur)
			cur = []*sexp{}
			i++
		case c == ')':
			n := &sexp{list: cur, isL: true}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			if c == '|' {
				j++
				for src[j] != '|' {
					j++
				}
				j++
			} else {
				for j < len(src) && !strings.ContainsRune("() \n\t\r;", rune(src[j])) {
					j++
				}
			}
			cur = append(cur, &sexp{atom: src[i:j]})
			i = j
		}
	}
	return cur
}

func (s *sexp) String() string {
	if !s.isL {
		return s.atom
	}
	p := make([]string, len(s.list))
	for i, x := range s.list {
		p[i] = x.String()
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *sexp) atoms(out map[string]bool) {
	if !s.isL {
		out[s.atom] = true
		return
	}
	for _, x := range s.list {
		x.atoms(out)
	}
}
