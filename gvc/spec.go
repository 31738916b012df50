package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---------- AST of the contract language ----------

type Expr struct {
	Op   string // ident, int, str, bool, nil, call, index, slice, field, unary, binary, forall, exists, old, ite, let
	Name string
	Args []*Expr
	Vars []Param
	Pats [][]*Expr
	Pos  string
}

type TypeExpr struct {
	Kind string // name, ptr, slice, map, func
	Pkg  string
	Name string
	Elem *TypeExpr
	Key  *TypeExpr
}

type Param struct {
	Name string
	Type *TypeExpr
}

type Clause struct {
	Kind   string // requires, ensures, invariant, decreases, assert, assume
	Labels []string
	Name   string
	E      *Expr
	Ghost  string // assigned ghost variable
	Pos    string
}

func (c *Clause) has(p string) bool {
	if len(c.Labels) == 0 || p == "" {
		return true
	}
	for _, l := range c.Labels {
		if l == p {
			return true
		}
	}
	return false
}

type ModClause struct {
	Keys   []string
	Labels []string
	E      *Expr // over $r; nil = anywhere
	Fresh  bool  // only fresh memory
	Pos    string
}

type LoopSpec struct {
	Invs []*Clause
	Decr []*Expr
	Head []*Clause // lemma instances available at the start of the loop and of each iteration
	Hint []*Clause // asserts at the back edge, before the invariant
	Unr  int       // unroll bound (complete unrolling with an unwinding assertion)
	Vars []Param   // names this loop's invariants expect: informational
}

type Contract struct {
	Key       string
	Params    []string
	Results   []string
	Extern    bool
	Pure      bool
	Inline    bool
	Iter      *IterSpec
	NoReturn  bool
	Hide      map[string]bool // definitions and lemmas that the obligations of this function do without
	Requires  []*Clause
	Ensures   []*Clause
	Hints     []*Clause // asserts at exit, before ensures
	Asserts   map[string][]*Clause
	Mods      []*ModClause
	Loops     []*LoopSpec
	Props     []string // properties this function is verified for
	Trusted   string
	Quiet     bool              // writes only memory it allocates: that memory is described in the heap before the call
	Elsewhere map[string]string // property -> property whose check proves this contract
	GhostOut  bool
	Lets      []Let
	Decreases []*Expr
	Yields    []*Contract // behaviour of function-valued results (Key: the result's name)
	Pos       string
}

type Let struct {
	Name string
	E    *Expr
}

type IterSpec struct {
	Cb    int // index of callback parameter
	Count *Expr
	Args  []*Expr // over $k
}

type Macro struct {
	Name   string
	Params []Param
	E      *Expr
}

type RecFn struct {
	Name   string
	Params []Param
	Ret    *TypeExpr
	E      *Expr // nil: uninterpreted
	Fuel   int
	NoAx   bool
}

type Lemma struct {
	Name     string
	Params   []Param
	Requires []*Expr
	Ensures  []*Expr
	Induct   *Expr // measure for induction (an int expression >= 0)
	Pats     [][]*Expr
	Labels   []string
	Uses     []*Expr // ground instances to assert as hints (terms to mention)
	Export   bool
	Axiom    string // reason, if assumed
	Pos      string
}

type SpecFile struct {
	Imports   map[string]string
	Macros    map[string]*Macro
	Recs      map[string]*RecFn
	Lemmas    []*Lemma
	Groups    map[string][]string // names for lists of properties
	Contracts map[string]*Contract
	Order     []string
}

// ---------- lexer ----------

type tok struct {
	kind string // id, int, str, char, op, eof
	s    string
	line int
}

type parser struct {
	file string
	toks []tok
	p    int
	sf   *SpecFile

	defLabels []string
}

// define rejects a second definition of a name.
func (p *parser) define(n string) {
	if p.sf.Macros[n] != nil || p.sf.Recs[n] != nil {
		p.fail("second definition of %s", n)
	}
}

var ops = []string{"<==>", "==>", "...", "==", "!=", "<=", ">=", "&&", "||", "::", ":=", "(", ")", "[", "]", "{", "}", ",", ";", ".", ":", "+", "-", "*", "/", "%", "<", ">", "!", "=", "?", "@", "|"}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if strings.HasPrefix(src[i:], "//") {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		r, _ := utf8.DecodeRuneInString(src[i:])
		if unicode.IsLetter(r) || r == '_' || r == '$' {
			j := i
			for j < len(src) {
				r, w := utf8.DecodeRuneInString(src[j:])
				if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$' || r == '\'' {
					j += w
				} else {
					break
				}
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F') {
				j++
			}
			out = append(out, tok{"int", src[i:j], line})
			i = j
			continue
		}
		if c == '"' || c == '`' {
			j := i + 1
			for src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
			continue
		}
		if c == '\'' {
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char", file, line))
			}
			r, _ := utf8.DecodeRuneInString(s)
			out = append(out, tok{"int", fmt.Sprint(int(r)), line})
			i = j + 1
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, line})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			panic(fmt.Sprintf("%s:%d: unexpected character %q", file, line, c))
		}
	}
	return append(out, tok{"eof", "", line})
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) at(n int) tok {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) pos() string {
	return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line)
}
func (p *parser) fail(f string, a ...any) {
	panic(fmt.Sprintf("%s: %s (at %q)", p.pos(), fmt.Sprintf(f, a...), p.peek().s))
}
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.s == s && (t.kind == "op" || t.kind == "id")
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.kind != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

// ---------- declarations ----------

func LoadSpecs(dir string) *SpecFile {
	sf := &SpecFile{Imports: map[string]string{}, Groups: map[string][]string{}, Macros: map[string]*Macro{}, Recs: map[string]*RecFn{}, Contracts: map[string]*Contract{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &parser{file: f, toks: lex(f, string(b)), sf: sf}
		p.parseFile()
	}
	return sf
}

func (p *parser) parseFile() {
	for p.peek().kind != "eof" {
		switch {
		case p.accept("import"):
			a := p.ident()
			p.sf.Imports[a] = p.next().s
		case p.accept("macro"):
			m := &Macro{Name: p.ident()}
			m.Params = p.params()
			p.expect("=")
			m.E = p.expr()
			p.expect(";")
			p.define(m.Name)
			p.sf.Macros[m.Name] = m
		case p.accept("group"): // group NAME = C01, C02;
			n := p.ident()
			p.expect("=")
			var ls []string
			for !p.accept(";") {
				ls = append(ls, p.ident())
				p.accept(",")
			}
			p.sf.Groups[n] = ls
		case p.is("rec") || p.is("sym"):
			isRec := p.next().s == "rec"
			r := &RecFn{Name: p.ident(), Fuel: 1}
			r.Params = p.params()
			r.Ret = p.typ()
			for {
				if p.accept("fuel") {
					r.Fuel, _ = strconv.Atoi(p.next().s)
					continue
				}
				break
			}
			if isRec {
				p.expect("=")
				r.E = p.expr()
			}
			p.expect(";")
			p.define(r.Name)
			p.sf.Recs[r.Name] = r
		case p.is("lemma") || p.is("axiom"):
			p.lemma()
		case p.is("func") || p.is("extern"):
			p.contract()
		default:
			p.fail("unexpected declaration")
		}
	}
}

func (p *parser) params() []Param {
	p.expect("(")
	var ps []Param
	var pend []int
	for !p.accept(")") {
		n := p.ident()
		ps = append(ps, Param{Name: n})
		pend = append(pend, len(ps)-1)
		if !p.is(",") && !p.is(")") {
			t := p.typ()
			for _, i := range pend {
				ps[i].Type = t
			}
			pend = nil
		}
		p.accept(",")
	}
	for _, i := range pend {
		ps[i].Type = nil
	}
	return ps
}

func (p *parser) typ() *TypeExpr {
	switch {
	case p.accept("*"):
		return &TypeExpr{Kind: "ptr", Elem: p.typ()}
	case p.accept("["):
		p.expect("]")
		return &TypeExpr{Kind: "slice", Elem: p.typ()}
	case p.accept("map"):
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "map", Key: k, Elem: p.typ()}
	}
	n := p.ident()
	if p.accept(".") {
		return &TypeExpr{Kind: "name", Pkg: n, Name: p.ident()}
	}
	return &TypeExpr{Kind: "name", Name: n}
}

func (p *parser) labels() []string {
	var ls []string
	if p.accept("[") {
		for !p.accept("]") {
			n := p.ident()
			if g, ok := p.sf.Groups[n]; ok {
				ls = append(ls, g...)
			} else {
				ls = append(ls, n)
			}
			p.accept(",")
		}
		return ls
	}
	return append(ls, p.defLabels...)
}

func (p *parser) lemma() {
	l := &Lemma{Pos: p.pos()}
	isAx := p.next().s == "axiom"
	l.Name = p.ident()
	l.Params = p.params()
	l.Labels = p.labels()
	p.expect("{")
	for !p.accept("}") {
		switch {
		case p.accept("requires"):
			l.Requires = append(l.Requires, p.expr())
		case p.accept("ensures"):
			l.Ensures = append(l.Ensures, p.expr())
		case p.accept("induction"):
			l.Induct = p.expr()
		case p.accept("use"):
			l.Uses = append(l.Uses, p.expr())
		case p.accept("export"):
			l.Export = true
			for p.is("{") {
				l.Pats = append(l.Pats, p.pattern())
			}
		case p.accept("because"):
			l.Axiom = p.next().s
		default:
			p.fail("bad lemma clause")
		}
		p.expect(";")
	}
	if isAx {
		if l.Axiom == "" {
			l.Axiom = "assumed"
		}
		l.Export = true
	}
	p.sf.Lemmas = append(p.sf.Lemmas, l)
}

func (p *parser) pattern() []*Expr {
	p.expect("{")
	var es []*Expr
	for !p.accept("}") {
		es = append(es, p.expr())
		p.accept(",")
	}
	return es
}

// function key: tokens up to the parameter list, e.g. (*lattice.Lattice).addNode or lattice.New or lattice.(*Lattice).x
func (p *parser) funcKey() string {
	var b strings.Builder
	if p.is("dyn") { // dyn("func type"): calls of unknown function values of that type
		p.next()
		p.expect("(")
		k := "dyn:" + p.next().s
		p.expect(")")
		return k
	}
	if p.is("(") {
		for {
			t := p.next()
			b.WriteString(t.s)
			if t.s == ")" {
				break
			}
		}
		for p.is(".") || p.peek().kind == "id" {
			b.WriteString(p.next().s)
		}
	} else {
		for {
			b.WriteString(p.next().s)
			if p.is("(") {
				break
			}
			if p.is("[") { // generic instance
				for !p.is("]") {
					b.WriteString(p.next().s)
				}
			}
		}
	}
	// substitute import aliases
	s := b.String()
	return p.sf.expandKey(s)
}

func (sf *SpecFile) expandKey(s string) string {
	var out strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		if j > i {
			id := s[i:j]
			if path, ok := sf.Imports[id]; ok && j < len(s) && s[j] == '.' && (i == 0 || s[i-1] != '.') {
				out.WriteString(path)
			} else {
				out.WriteString(id)
			}
			i = j
			continue
		}
		out.WriteByte(s[i])
		i++
	}
	return out.String()
}

func (p *parser) contract() {
	c := &Contract{Pos: p.pos(), Asserts: map[string][]*Clause{}}
	if p.accept("extern") {
		c.Extern = true
	}
	p.expect("func")
	c.Key = p.funcKey()
	p.contractBody(c)
	p.defLabels = nil
	if _, dup := p.sf.Contracts[c.Key]; dup {
		p.fail("second contract for %s", c.Key)
	}
	p.sf.Contracts[c.Key] = c
	p.sf.Order = append(p.sf.Order, c.Key)
}

func (p *parser) contractBody(c *Contract) {
	for _, x := range p.params() {
		c.Params = append(c.Params, x.Name)
	}
	if p.is("(") {
		for _, x := range p.params() {
			c.Results = append(c.Results, x.Name)
		}
	}
	p.expect("{")
	for !p.accept("}") {
		pos := p.pos()
		switch {
		case p.is("requires") || p.is("ensures") || p.is("hint") || p.is("assume"):
			k := p.next().s
			ls := p.labels()
			cl := &Clause{Kind: k, Labels: ls, Pos: pos}
			cl.E = p.expr()
			switch k {
			case "requires":
				c.Requires = append(c.Requires, cl)
			case "ensures", "assume":
				c.Ensures = append(c.Ensures, cl)
			case "hint":
				c.Hints = append(c.Hints, cl)
			}
		case p.accept("after"): // after <callee key> : assert expr
			ls := p.labels()
			k := p.next().s
			cl := &Clause{Kind: "assert", Labels: ls, Pos: pos}
			if p.accept("set") { // ghost assignment
				cl.Ghost = p.next().s
				p.expect("=")
			}
			cl.E = p.expr()
			c.Asserts[k] = append(c.Asserts[k], cl)
		case p.accept("labels"): // default labels of the clauses that follow
			for !p.is(";") {
				n := p.ident()
				if g, ok := p.sf.Groups[n]; ok {
					p.defLabels = append(p.defLabels, g...)
				} else {
					p.defLabels = append(p.defLabels, n)
				}
				p.accept(",")
			}
		case p.accept("pure"):
			c.Pure = true
		case p.accept("inline"):
			c.Inline = true
		case p.accept("noreturn"):
			c.NoReturn = true
		case p.accept("opaque"):
			if c.Hide == nil {
				c.Hide = map[string]bool{}
			}
			for {
				c.Hide[p.ident()] = true
				if !p.accept(",") {
					break
				}
			}
		case p.accept("quiet"):
			c.Quiet = true
		case p.accept("elsewhere"): // elsewhere C15 C06: under C15, what C06 proves about the function is used without being proved again
			if c.Elsewhere == nil {
				c.Elsewhere = map[string]string{}
			}
			a := p.ident()
			c.Elsewhere[a] = p.ident()
		case p.accept("trusted"):
			c.Trusted = p.next().s
		case p.accept("props"):
			for !p.is(";") {
				n := p.ident()
				if g, ok := p.sf.Groups[n]; ok {
					c.Props = append(c.Props, g...)
				} else {
					c.Props = append(c.Props, n)
				}
				p.accept(",")
			}
		case p.accept("decreases"):
			c.Decreases = p.exprs(";")
		case p.accept("yields"): // yields r(args)(results) { ... }: contract of the returned function
			y := &Contract{Pos: pos, Asserts: map[string][]*Clause{}}
			y.Key = p.ident()
			p.contractBody(y)
			c.Yields = append(c.Yields, y)
			continue
		case p.accept("let"):
			n := p.ident()
			p.expect("=")
			c.Lets = append(c.Lets, Let{n, p.expr()})
		case p.accept("iter"):
			it := &IterSpec{}
			cb := p.ident()
			it.Cb = -1
			for i, x := range c.Params {
				if x == cb {
					it.Cb = i
				}
			}
			p.expect("count")
			it.Count = p.expr()
			p.expect("args")
			it.Args = p.exprs(";")
			c.Iter = it
		case p.accept("modifies"):
			m := &ModClause{Pos: pos}
			m.Labels = p.labels()
			for {
				m.Keys = append(m.Keys, p.next().s)
				if !p.accept(",") {
					break
				}
			}
			if p.accept("fresh") {
				m.Fresh = true
			} else if p.accept("if") {
				m.E = p.expr()
			}
			c.Mods = append(c.Mods, m)
		case p.accept("loop"):
			l := &LoopSpec{}
			n := len(c.Loops)
			if p.peek().kind == "int" {
				n2, _ := strconv.Atoi(p.next().s)
				if n2 != n {
					p.fail("loop ordinal %d, expected %d", n2, n)
				}
			}
			p.expect("{")
			for !p.accept("}") {
				pos := p.pos()
				switch {
				case p.is("invariant") || p.is("hint"):
					k := p.next().s
					cl := &Clause{Kind: k, Labels: p.labels(), Pos: pos}
					cl.E = p.expr()
					if k == "hint" {
						l.Hint = append(l.Hint, cl)
					} else {
						l.Invs = append(l.Invs, cl)
					}
				case p.accept("head"):
					cl := &Clause{Kind: "head", Labels: p.labels(), Pos: pos}
					cl.E = p.expr()
					l.Head = append(l.Head, cl)
				case p.accept("decreases"):
					l.Decr = p.exprs(";")
				case p.accept("unroll"):
					l.Unr, _ = strconv.Atoi(p.next().s)
				default:
					p.fail("bad loop clause")
				}
				p.expect(";")
			}
			c.Loops = append(c.Loops, l)
			p.accept(";")
			continue
		default:
			p.fail("bad clause")
		}
		p.expect(";")
	}
}

// ---------- expressions ----------

func (p *parser) exprs(end string) []*Expr {
	var es []*Expr
	for !p.is(end) {
		es = append(es, p.expr())
		if !p.accept(",") {
			break
		}
	}
	return es
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) bin(op string, a, b *Expr) *Expr {
	return &Expr{Op: "binary", Name: op, Args: []*Expr{a, b}, Pos: p.pos()}
}

func (p *parser) iff() *Expr {
	a := p.imp()
	for p.accept("<==>") {
		a = p.bin("<==>", a, p.imp())
	}
	return a
}

func (p *parser) imp() *Expr {
	a := p.or()
	if p.accept("==>") {
		return p.bin("==>", a, p.imp())
	}
	return a
}

func (p *parser) or() *Expr {
	a := p.and()
	for p.accept("||") {
		a = p.bin("||", a, p.and())
	}
	return a
}

func (p *parser) and() *Expr {
	a := p.cmp()
	for p.accept("&&") {
		a = p.bin("&&", a, p.cmp())
	}
	return a
}

func (p *parser) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) && p.peek().kind == "op" {
				op = o
			}
		}
		if op == "" {
			break
		}
		p.next()
		b := p.add()
		c := p.bin(op, a, b)
		if res == nil {
			res = c
		} else {
			res = p.bin("&&", res, c)
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}

func (p *parser) add() *Expr {
	a := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		a = p.bin(o, a, p.mul())
	}
	return a
}

func (p *parser) mul() *Expr {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		a = p.bin(o, a, p.unary())
	}
	return a
}

func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return &Expr{Op: "unary", Name: "!", Args: []*Expr{p.unary()}, Pos: p.pos()}
	case p.accept("-"):
		return &Expr{Op: "unary", Name: "-", Args: []*Expr{p.unary()}, Pos: p.pos()}
	case p.accept("*"):
		return &Expr{Op: "unary", Name: "*", Args: []*Expr{p.unary()}, Pos: p.pos()}
	case p.is("forall") || p.is("exists"):
		k := p.next().s
		e := &Expr{Op: k, Pos: p.pos()}
		var pend []int
		for !p.is("::") && !p.is("{") {
			e.Vars = append(e.Vars, Param{Name: p.ident()})
			pend = append(pend, len(e.Vars)-1)
			if !p.is(",") && !p.is("::") && !p.is("{") {
				t := p.typ()
				for _, i := range pend {
					e.Vars[i].Type = t
				}
				pend = nil
			}
			p.accept(",")
		}
		for p.is("{") {
			e.Pats = append(e.Pats, p.pattern())
		}
		p.expect("::")
		e.Args = []*Expr{p.expr()}
		return e
	case p.accept("let"):
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, Pos: p.pos()}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", Name: p.ident(), Args: []*Expr{e}, Pos: p.pos()}
		case p.is("["):
			p.next()
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}, Pos: p.pos()}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}, Pos: p.pos()}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Pos: p.pos()}
		case p.is("(") && (e.Op == "ident"):
			p.next()
			args := p.exprs(")")
			p.expect(")")
			e = &Expr{Op: "call", Name: e.Name, Args: args, Pos: p.pos()}
		case p.is("(") && e.Op == "field" && e.Args[0].Op == "ident":
			p.next()
			args := p.exprs(")")
			p.expect(")")
			e = &Expr{Op: "call", Name: e.Args[0].Name + "." + e.Name, Args: args, Pos: p.pos()}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	pos := p.pos()
	switch t.kind {
	case "int":
		p.next()
		return &Expr{Op: "int", Name: t.s, Pos: pos}
	case "str":
		p.next()
		return &Expr{Op: "str", Name: t.s, Pos: pos}
	case "id":
		switch t.s {
		case "true", "false":
			p.next()
			return &Expr{Op: "bool", Name: t.s, Pos: pos}
		case "nil":
			p.next()
			return &Expr{Op: "nil", Pos: pos}
		case "if":
			p.next()
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return &Expr{Op: "ite", Args: []*Expr{c, a, b}, Pos: pos}
		}
		p.next()
		return &Expr{Op: "ident", Name: t.s, Pos: pos}
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("unexpected token in expression")
	return nil
}
