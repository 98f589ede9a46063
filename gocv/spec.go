package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// The contract language: see DESIGN.md. A spec file is a sequence of
// declarations (datatype, fn, def, rec, lemma, func contracts).

type tok struct {
	k    byte // 'i' ident, 'n' number, 's' string, 'o' operator, 'e' eof
	s    string
	line int
	file string
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	rs := []rune(src)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '#' || c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{'i', string(rs[i:j]), line, file})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, tok{'n', string(rs[i:j]), line, file})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string %s", file, line, string(rs[i:j+1])))
			}
			out = append(out, tok{'s', s, line, file})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", "=>", "==", "!=", "<=", ">=", "&&", "||", ":="} {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
			}
			out = append(out, tok{'o', op, line, file})
			i += len([]rune(op))
		}
	}
	return append(out, tok{'e', "", line, file})
}

// ---- expression AST

type Expr struct {
	Op   string // id num str field index call bin un ite let switch is as old paren slice
	Name string
	Args []*Expr
	Arms []Arm
	Line int
	File string
}

type Arm struct {
	Ctors []string // empty for else
	Body  *Expr
}

func (e *Expr) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(e.File), e.Line) }

type sparser struct {
	t []tok
	i int
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) fail(f string, a ...interface{}) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, fmt.Sprintf(f, a...), t.s))
}
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == 'o' || t.k == 'i') && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.i--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *sparser) mk(op, name string, as ...*Expr) *Expr {
	t := p.t[max(p.i-1, 0)]
	return &Expr{Op: op, Name: name, Args: as, Line: t.line, File: t.file}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "*": 7,
}

func (p *sparser) expr() *Expr { return p.bin(1) }

func (p *sparser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == 'i' && t.s == "is" && 5 >= min {
			p.next()
			l = p.mk("is", p.ident(), l)
			continue
		}
		pr, ok := binPrec[t.s]
		if t.k != 'o' || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = p.mk("bin", t.s, l, r)
	}
}

func (p *sparser) unary() *Expr {
	if p.accept("!") {
		return p.mk("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mk("un", "-", p.unary())
	}
	return p.postfix(p.primary())
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			if p.accept("(") {
				n := p.ident()
				p.expect(")")
				e = p.mk("as", n, e)
			} else {
				e = p.mk("field", p.ident(), e)
			}
		case p.is("["):
			p.next()
			i := p.expr()
			p.expect("]")
			e = p.mk("index", "", e, i)
		default:
			return e
		}
	}
}

func (p *sparser) primary() *Expr {
	t := p.next()
	switch t.k {
	case 'n':
		return p.mk("num", t.s)
	case 's':
		return p.mk("str", t.s)
	case 'o':
		switch t.s {
		case "(":
			e := p.expr()
			p.expect(")")
			return e
		case "[":
			var as []*Expr
			for !p.is("]") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("]")
			return p.mk("seq", "", as...)
		}
	case 'i':
		switch t.s {
		case "if":
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return p.mk("ite", "", c, a, b)
		case "let":
			n := p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return p.mk("let", n, v, b)
		case "switch":
			s := p.expr()
			p.expect("{")
			e := p.mk("switch", "", s)
			for !p.accept("}") {
				var a Arm
				if p.accept("else") {
				} else {
					a.Ctors = append(a.Ctors, p.ident())
					for p.accept(",") {
						a.Ctors = append(a.Ctors, p.ident())
					}
				}
				p.expect("=>")
				a.Body = p.expr()
				p.accept(";")
				e.Arms = append(e.Arms, a)
			}
			return e
		case "old":
			p.expect("(")
			e := p.expr()
			p.expect(")")
			return p.mk("old", "", e)
		}
		if p.accept("(") {
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return p.mk("call", t.s, as...)
		}
		return p.mk("id", t.s)
	}
	p.i--
	p.fail("unexpected token in expression")
	return nil
}

// ---- declarations

type TypeExpr struct {
	Name string
	Elem *TypeExpr
}

func (p *sparser) typ() *TypeExpr {
	n := p.ident()
	if n == "Seq" {
		p.expect("[")
		e := p.typ()
		p.expect("]")
		return &TypeExpr{"Seq", e}
	}
	return &TypeExpr{Name: n}
}

type Param struct {
	Name string
	Type *TypeExpr
}

type SpecFn struct {
	Name   string
	Params []Param
	Ret    *TypeExpr
	Body   *Expr // nil for uninterpreted
	Rec    bool
	Level  int
	// elaborated
	PSorts  []*Sort
	RSort   *Sort
	pconsts []*Term
	body    *Term
	Wrap64  bool // result is a machine integer
}

type DataDecl struct {
	Name  string
	Ctors []struct {
		Name   string
		Fields []Param
	}
}

type Lemma struct {
	Name   string
	Params []Param
	Trig   []*Expr
	Body   *Expr
	// theorems are proved (by induction over Dec), axioms are not
	Proved bool
	Props  []string
	Dec    *Expr
	At     [][]*Expr
	// elaborated
	vars  []*Term
	trigT []*Term
	bodyT *Term
}

type Clause struct {
	Label string
	Props []string
	E     *Expr
}

type LoopSpec struct {
	Inv []Clause
}

// Case is a part of a function's inputs. When one property is decided, the
// parts that are not labelled with it are left out, and calls outside the
// remaining parts are violations of the precondition.
type Case struct {
	Props []string
	E     *Expr
}

func (c *Contract) caseOn(i int) bool {
	if *fProp == "" || *fAllCases || *fProp == safeProp {
		return true
	}
	if i == len(c.Cases) {
		return !c.partial()
	}
	return len(c.Cases[i].Props) == 0 || contains(c.Cases[i].Props, *fProp)
}

// partial: some cases are left out in this run.
func (c *Contract) partial() bool {
	for i := range c.Cases {
		if !c.caseOn(i) {
			return true
		}
	}
	return false
}

type Contract struct {
	Key      string // "pkg/core/dice/roller.(*DiceRoller).RollDice"
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []*Expr
	Keeps    []*Expr
	Cases    []*Case // the verification is split along these
	Loops    map[int]*LoopSpec
	Nilable  map[string]bool
	Helper   bool
	Inline   bool            // callers see the body
	Opaque   map[string]bool // recursive specification functions unfolded only where the case is known
	Iface    bool
	Extern   bool
	Pure     bool // result is a function of the arguments only (checked like any other)
	NoPanic  bool
	Refines  string // key of the interface contract this one refines
	File     string
	Line     int
}

type Specs struct {
	Data      []*DataDecl
	Fns       map[string]*SpecFn
	FnOrder   []*SpecFn
	Lemmas    []*Lemma
	Contracts map[string]*Contract
	Order     []*Contract
	Obl       []*LemmaObl
	Opaque    []string
	NonNil    [][2]string
	Grammars  []*GrammarDecl
}

// LemmaObl is a closed statement to be proved from the spec definitions.
type LemmaObl struct {
	Name   string
	Props  []string
	Params []Param
	Hyps   []*Expr
	E      *Expr
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{Fns: map[string]*SpecFn{}, Contracts: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &sparser{t: lex(f, string(b))}
		p.decls(sp)
	}
	return sp
}

func (p *sparser) params() []Param {
	var ps []Param
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		ps = append(ps, Param{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return ps
}

func (p *sparser) props() []string {
	var out []string
	for p.peek().k == 'i' && len(p.peek().s) == 3 && p.peek().s[0] == 'C' && unicode.IsDigit(rune(p.peek().s[1])) {
		out = append(out, p.next().s)
	}
	return out
}

func (p *sparser) decls(sp *Specs) {
	for p.peek().k != 'e' {
		switch kw := p.ident(); kw {
		case "nonnil":
			n := p.ident()
			p.expect(".")
			sp.NonNil = append(sp.NonNil, [2]string{n, p.ident()})
		case "grammar":
			d := &GrammarDecl{Pkg: p.next().s, Var: p.ident(), Is: map[string]string{}, Each: map[string]string{}}
			d.Props = p.props()
			for p.accept("rule") {
				r := p.ident()
				if p.accept("is") {
					d.Is[r] = p.ident()
				}
				if p.accept("each") {
					d.Each[r] = p.ident()
				}
			}
			sp.Grammars = append(sp.Grammars, d)
		case "opaque":
			sp.Opaque = append(sp.Opaque, p.ident())
		case "datatype":
			d := &DataDecl{Name: p.ident()}
			p.expect("=")
			for {
				n := p.ident()
				var fs []Param
				if p.is("(") {
					fs = p.params()
				}
				d.Ctors = append(d.Ctors, struct {
					Name   string
					Fields []Param
				}{n, fs})
				if !p.accept("|") {
					break
				}
			}
			sp.Data = append(sp.Data, d)
		case "fn", "def", "rec":
			f := &SpecFn{Name: p.ident()}
			f.Params = p.params()
			p.expect(":")
			if p.accept("int64") {
				f.Ret = &TypeExpr{Name: "Int"}
				f.Wrap64 = true
			} else {
				f.Ret = p.typ()
			}
			if kw != "fn" {
				p.expect("=")
				f.Body = p.expr()
			}
			f.Rec = kw == "rec"
			if sp.Fns[f.Name] != nil {
				p.fail("duplicate function %s", f.Name)
			}
			sp.Fns[f.Name] = f
			sp.FnOrder = append(sp.FnOrder, f)
		case "axiom":
			l := &Lemma{Name: p.ident()}
			l.Params = p.params()
			p.expect("trigger")
			l.Trig = append(l.Trig, p.expr())
			for p.accept(",") {
				l.Trig = append(l.Trig, p.expr())
			}
			p.expect(":")
			l.Body = p.expr()
			sp.Lemmas = append(sp.Lemmas, l)
		case "theorem":
			l := &Lemma{Name: p.ident(), Proved: true, Props: p.props()}
			l.Params = p.params()
			if p.accept("trigger") { // without one it is never used by other proofs
				l.Trig = append(l.Trig, p.expr())
				for p.accept(",") {
					l.Trig = append(l.Trig, p.expr())
				}
			}
			if p.accept("decreases") {
				l.Dec = p.expr()
				for p.accept("at") {
					var as []*Expr
					p.expect("(")
					for {
						as = append(as, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect(")")
					if len(as) != len(l.Params) {
						p.fail("theorem %s: wrong number of arguments", l.Name)
					}
					l.At = append(l.At, as)
				}
			}
			p.expect(":")
			l.Body = p.expr()
			sp.Lemmas = append(sp.Lemmas, l)
		case "lemma":
			l := &LemmaObl{Name: p.ident(), Props: p.props()}
			l.Params = p.params()
			for p.accept("given") {
				l.Hyps = append(l.Hyps, p.expr())
			}
			p.expect(":")
			l.E = p.expr()
			sp.Obl = append(sp.Obl, l)
		case "func", "iface", "extern":
			p.contract(sp, kw)
		default:
			p.i--
			p.fail("unknown declaration %s", kw)
		}
	}
}

func (p *sparser) contract(sp *Specs, kw string) {
	t := p.next()
	if t.k != 's' {
		p.fail("contract key must be a string")
	}
	c := &Contract{Key: t.s, Loops: map[int]*LoopSpec{}, Nilable: map[string]bool{}, File: t.file, Line: t.line}
	c.Iface = kw == "iface"
	c.Extern = kw == "extern"
	names := func() []string {
		var out []string
		p.expect("(")
		for !p.is(")") {
			n := p.ident()
			if p.accept("?") {
				c.Nilable[n] = true
			}
			out = append(out, n)
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		return out
	}
	c.Params = names()
	if p.is("(") {
		c.Results = names()
	}
	clause := func(def string) Clause {
		cl := Clause{Label: def}
		if p.peek().k == 'i' && p.t[p.i+1].k == 'i' && len(p.t[p.i+1].s) == 3 && p.t[p.i+1].s[0] == 'C' && unicode.IsDigit(rune(p.t[p.i+1].s[1])) || p.peek().k == 'i' && p.t[p.i+1].s == ":" {
			cl.Label = p.ident()
			cl.Props = p.props()
			p.expect(":")
		}
		cl.E = p.expr()
		return cl
	}
	for p.peek().k == 'i' {
		switch p.peek().s {
		case "props":
			p.next()
			c.Props = append(c.Props, p.props()...)
		case "helper":
			p.next()
			c.Helper = true
		case "inline":
			p.next()
			c.Inline = true
		case "opaque":
			ln := p.next().line
			c.Opaque = map[string]bool{}
			for p.peek().k == 'i' && p.peek().line == ln {
				c.Opaque[p.next().s] = true
			}
		case "refines":
			p.next()
			c.Refines = p.next().s
		case "requires":
			p.next()
			c.Requires = append(c.Requires, clause(fmt.Sprintf("pre%d", len(c.Requires)+1)))
		case "ensures":
			p.next()
			c.Ensures = append(c.Ensures, clause(fmt.Sprintf("post%d", len(c.Ensures)+1)))
		case "modifies":
			p.next()
			c.Modifies = append(c.Modifies, p.expr())
			for p.accept(",") {
				c.Modifies = append(c.Modifies, p.expr())
			}
		case "case":
			p.next()
			cs := &Case{Props: p.props()}
			p.expect(":")
			cs.E = p.expr()
			c.Cases = append(c.Cases, cs)
		case "keeps":
			p.next()
			c.Keeps = append(c.Keeps, p.expr())
			for p.accept(",") {
				c.Keeps = append(c.Keeps, p.expr())
			}
		case "loop":
			p.next()
			n, _ := strconv.Atoi(p.next().s)
			ls := c.Loops[n]
			if ls == nil {
				ls = &LoopSpec{}
				c.Loops[n] = ls
			}
			for p.accept("invariant") {
				ls.Inv = append(ls.Inv, clause(fmt.Sprintf("inv%d", len(ls.Inv)+1)))
			}
		default:
			goto done
		}
	}
done:
	if sp.Contracts[c.Key] != nil {
		panic("duplicate contract " + c.Key)
	}
	sp.Contracts[c.Key] = c
	sp.Order = append(sp.Order, c)
}

func (c *Contract) caseList() []*Case {
	if c == nil {
		return nil
	}
	return c.Cases
}
