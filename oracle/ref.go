// Package main: an independent reference implementation of the documented
// command language, used to look for concrete failing inputs after a proof
// obligation has failed, and for the bounded stand-ins. It shares no code with
// the repository.
package main

import (
	"errors"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type die struct{ V, S int }

// refN is an expression.
type refN struct {
	k    string // int neg + - * / D B R U ... sum
	v    int
	l, r *refN
	rm   string
	dice []die
}

// refC is a command.
type refC struct {
	kind  string // calc dexpr dcomp blist bcomp rlist rcomp uexpr ucomp choice
	e     *refN
	op    string
	tgt   *refN
	rolls []*refN
	thr   *refN
	bonus *refN
	items []string
}

// ---- reading (a direct transcription of the documented grammar)

type rp struct {
	s     string
	i     int
	empty bool // an integer literal did not fit
}

func (p *rp) lit(c byte) bool {
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}
func (p *rp) litI(c byte) bool {
	if p.i < len(p.s) && (p.s[p.i] == c || p.s[p.i] == c+32) {
		p.i++
		return true
	}
	return false
}
func (p *rp) str(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}
func (p *rp) integer() *refN {
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == p.i {
		return nil
	}
	v, err := strconv.Atoi(p.s[p.i:j])
	if err != nil {
		p.empty = true
	}
	p.i = j
	return &refN{k: "int", v: v}
}

// flavour: 0 integers only, 1 with random numbers, 2 with addition rolls
func (p *rp) expr(f int) *refN {
	n := p.term(f)
	if n == nil {
		return nil
	}
	for {
		m := p.i
		var op string
		if p.lit('+') {
			op = "+"
		} else if p.lit('-') {
			op = "-"
		} else {
			return n
		}
		r := p.term(f)
		if r == nil {
			p.i = m
			return n
		}
		n = &refN{k: op, l: n, r: r}
	}
}

func (p *rp) term(f int) *refN {
	n := p.primary(f)
	if n == nil {
		return nil
	}
	for {
		m := p.i
		if p.lit('/') {
			r := p.primary(f)
			if r == nil {
				p.i = m
				return n
			}
			rm := ""
			if p.litI('U') {
				rm = "U"
			} else if p.litI('R') {
				rm = "R"
			}
			n = &refN{k: "/", l: n, r: r, rm: rm}
			continue
		}
		if p.lit('*') {
			r := p.primary(f)
			if r == nil {
				p.i = m
				return n
			}
			n = &refN{k: "*", l: n, r: r}
			continue
		}
		return n
	}
}

func (p *rp) primary(f int) *refN {
	m := p.i
	if f == 2 {
		if n := p.roll('D'); n != nil {
			return n
		}
		p.i = m
	}
	if f >= 1 {
		if n := p.random(); n != nil {
			return n
		}
		p.i = m
	}
	if n := p.integer(); n != nil {
		return n
	}
	if p.lit('+') {
		if n := p.primary(f); n != nil {
			return n
		}
		p.i = m
	}
	if p.lit('-') {
		if n := p.primary(f); n != nil {
			return &refN{k: "neg", r: n}
		}
		p.i = m
	}
	if p.lit('(') {
		n := p.expr(f)
		if n != nil && p.lit(')') {
			return n
		}
		p.i = m
	}
	return nil
}

func (p *rp) random() *refN {
	m := p.i
	if p.lit('[') {
		a := p.randOperand()
		if a != nil && p.str("...") {
			b := p.randOperand()
			if b != nil && p.lit(']') {
				return &refN{k: "...", l: a, r: b}
			}
		}
	}
	p.i = m
	return nil
}

func (p *rp) randOperand() *refN { return p.paren(0) }

func (p *rp) paren(f int) *refN {
	m := p.i
	if n := p.integer(); n != nil {
		return n
	}
	if f == 1 {
		if n := p.random(); n != nil {
			return n
		}
	}
	if p.lit('(') {
		n := p.expr(f)
		if n != nil && p.lit(')') {
			return n
		}
	}
	p.i = m
	return nil
}

func (p *rp) roll(c byte) *refN {
	m := p.i
	a := p.paren(1)
	if a != nil && p.litI(c) {
		b := p.paren(1)
		if b != nil {
			return &refN{k: string(c), l: a, r: b}
		}
	}
	p.i = m
	return nil
}

func (p *rp) compareOp() string {
	for _, o := range []string{"=", "<>", "<=", "<", ">=", ">"} {
		if p.str(o) {
			return o
		}
	}
	return ""
}

func (p *rp) rollList(c byte) []*refN {
	n := p.roll(c)
	if n == nil {
		return nil
	}
	out := []*refN{n}
	for {
		m := p.i
		if !p.lit('+') {
			return out
		}
		n := p.roll(c)
		if n == nil {
			p.i = m
			return out
		}
		out = append(out, n)
	}
}

func (p *rp) threshold() *refN {
	m := p.i
	if p.lit('[') {
		n := p.expr(0)
		if n != nil && p.lit(']') {
			return n
		}
	}
	p.i = m
	return nil
}

func hasRandom(n *refN) bool {
	if n == nil {
		return false
	}
	switch n.k {
	case "D", "B", "R", "U", "...":
		return true
	}
	return hasRandom(n.l) || hasRandom(n.r)
}

// refParse returns nil if the text is not a command.
func refParse(s string) *refC {
	p := &rp{s: s}
	if c := p.choice(); c != nil {
		return c
	}
	p = &rp{s: s}
	if p.litI('C') && p.lit('(') {
		e := p.expr(0)
		if p.empty {
			return nil
		}
		if e != nil && p.lit(')') {
			return &refC{kind: "calc", e: e}
		}
	}
	if p.empty {
		return nil
	}
	// the alternatives; the first that matches a prefix has to reach the end
	try := func(f func(p *rp) *refC) (*refC, bool) {
		p := &rp{s: s}
		c := f(p)
		if p.empty {
			return nil, true
		}
		if c == nil {
			return nil, false
		}
		if p.i != len(p.s) {
			return nil, true
		}
		return c, true
	}
	alts := []func(p *rp) *refC{
		func(p *rp) *refC { return p.comp("bcomp", p.blist) },
		func(p *rp) *refC { return p.blist() },
		func(p *rp) *refC { return p.comp("rcomp", p.rlist) },
		func(p *rp) *refC { return p.rlist() },
		func(p *rp) *refC { return p.comp("ucomp", p.uexpr) },
		func(p *rp) *refC { return p.uexpr() },
		func(p *rp) *refC {
			return p.comp("dcomp", func() *refC {
				if e := p.expr(2); e != nil {
					return &refC{kind: "dexpr", e: e}
				}
				return nil
			})
		},
		func(p *rp) *refC {
			if e := p.expr(2); e != nil {
				return &refC{kind: "dexpr", e: e}
			}
			return nil
		},
	}
	for _, a := range alts {
		c, done := try(a)
		if done {
			if c != nil && (c.kind == "dexpr" || c.kind == "dcomp") && !hasRandom(c.e) {
				return nil
			}
			return c
		}
	}
	return nil
}

func (p *rp) comp(kind string, left func() *refC) *refC {
	c := left()
	if c == nil {
		return nil
	}
	op := p.compareOp()
	if op == "" {
		return nil
	}
	t := p.expr(0)
	if t == nil {
		return nil
	}
	c.kind, c.op, c.tgt = kind, op, t
	return c
}

func (p *rp) blist() *refC {
	if r := p.rollList('B'); r != nil {
		return &refC{kind: "blist", rolls: r}
	}
	return nil
}
func (p *rp) rlist() *refC {
	if r := p.rollList('R'); r != nil {
		return &refC{kind: "rlist", rolls: r, thr: p.threshold()}
	}
	return nil
}
func (p *rp) uexpr() *refC {
	r := p.rollList('U')
	if r == nil {
		return nil
	}
	c := &refC{kind: "uexpr", rolls: r, thr: p.threshold()}
	m := p.i
	var first string
	if p.lit('+') {
		first = "+"
	} else if p.lit('-') {
		first = "-"
	} else {
		return c
	}
	n := p.term(0)
	if n == nil {
		p.i = m
		return c
	}
	b := &refN{k: first, l: &refN{k: "int"}, r: n}
	for {
		m := p.i
		op := ""
		if p.lit('+') {
			op = "+"
		} else if p.lit('-') {
			op = "-"
		} else {
			break
		}
		n := p.term(0)
		if n == nil {
			p.i = m
			break
		}
		b = &refN{k: op, l: b, r: n}
	}
	c.bonus = b
	return c
}

func isZ(r rune) bool { return unicode.Is(unicode.Z, r) }

func (p *rp) choice() *refC {
	const w = "CHOICE["
	if len(p.s) < len(w) || strings.ToUpper(p.s[:len(w)]) != w {
		return nil
	}
	p.i = len(w)
	c := &refC{kind: "choice"}
	item := func() bool {
		for p.i < len(p.s) {
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			if !isZ(r) {
				break
			}
			p.i += n
		}
		j := p.i
		for j < len(p.s) && p.s[j] != ']' && p.s[j] != ',' {
			j++
		}
		if j == p.i {
			return false
		}
		c.items = append(c.items, strings.TrimSpace(p.s[p.i:j]))
		p.i = j
		return true
	}
	if !item() {
		return nil
	}
	for {
		m := p.i
		if !p.lit(',') || !item() {
			p.i = m
			break
		}
	}
	if p.lit(',') {
		for p.i < len(p.s) {
			r, n := utf8.DecodeRuneInString(p.s[p.i:])
			if !isZ(r) {
				break
			}
			p.i += n
		}
	}
	if !p.lit(']') {
		return nil
	}
	return c
}

// ---- notation

func prec(n *refN) int {
	switch n.k {
	case "+", "-":
		return 2
	case "*", "/":
		return 3
	case "D", "B", "R", "U":
		return 4
	case "...":
		return 5
	}
	return 9
}

func infix(n *refN) bool { return prec(n) < 9 }

func refNot(n *refN, leftmost bool) string {
	switch n.k {
	case "int":
		return strconv.Itoa(n.v)
	case "sum":
		s, t := 0, []string{}
		for _, d := range n.dice {
			s += d.V
			t = append(t, strconv.Itoa(d.V))
		}
		return strconv.Itoa(s) + "[" + strings.Join(t, ",") + "]"
	case "neg":
		switch n.r.k {
		case "neg", "+", "-", "*", "/":
			return "-(" + refNot(n.r, true) + ")"
		}
		return "-" + refNot(n.r, leftmost)
	case "...":
		return "[" + refKids(n, true) + "]"
	}
	return refKids(n, leftmost)
}

func refKids(n *refN, leftmost bool) string {
	leftA := n.k == "+" || n.k == "-" || n.k == "*" || n.k == "/"
	rightA := n.k == "+" || n.k == "*"
	kid := func(c *refN, assoc, lm bool) string {
		if c.k == "neg" {
			return "(" + refNot(c, lm) + ")"
		}
		if infix(c) && (prec(c) < prec(n) || prec(c) == prec(n) && !assoc) {
			return "(" + refNot(c, true) + ")"
		}
		return refNot(c, lm)
	}
	var l string
	if n.l.k == "neg" && leftmost && leftA {
		l = refNot(n.l, true)
	} else {
		l = kid(n.l, leftA, leftmost)
	}
	return l + n.k + kid(n.r, rightA, false) + n.rm
}

func refNotList(rs []*refN) string {
	t := []string{}
	for _, r := range rs {
		t = append(t, refNot(r, true))
	}
	return strings.Join(t, "+")
}

func fmtMod(m int) string {
	if m == 0 {
		return ""
	}
	if m > 0 {
		return "+" + strconv.Itoa(m)
	}
	return strconv.Itoa(m)
}

// ---- running

var errRef = errors.New("error")

type refRun struct {
	sup   func(sides int) (die, bool) // the supply
	taken []die                       // taken by this run, in order
	log   []die                       // recorded
	max   int
}

func (e *refRun) roll(n, s int) ([]die, error) {
	if n < 1 || s < 1 {
		return nil, errRef
	}
	var out []die
	for i := 0; i < n; i++ {
		d, ok := e.sup(s)
		if !ok {
			return nil, errRef
		}
		e.taken = append(e.taken, d)
		if d.S != s || d.V < 1 || d.V > s {
			return nil, errRef
		}
		out = append(out, d)
	}
	e.log = append(e.log, out...)
	return out, nil
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func refDiv(l, r int, rm string) int {
	q, m := l/r, l%r
	switch rm {
	case "U":
		if m != 0 && (l < 0) == (r < 0) {
			q++
		}
	case "R":
		a, b := uint64(abs(m)), uint64(abs(r))
		if 2*a >= b {
			if (l < 0) == (r < 0) {
				q++
			} else {
				q--
			}
		}
	}
	return q
}

func (e *refRun) eval(n *refN) (int, error) {
	switch n.k {
	case "int":
		return n.v, nil
	case "sum":
		s := 0
		for _, d := range n.dice {
			s += d.V
		}
		return s, nil
	case "neg":
		v, err := e.eval(n.r)
		return -v, err
	}
	l, err := e.eval(n.l)
	if err != nil {
		return 0, err
	}
	r, err := e.eval(n.r)
	if err != nil {
		return 0, err
	}
	switch n.k {
	case "+":
		return l + r, nil
	case "-":
		return l - r, nil
	case "*":
		return l * r, nil
	case "/":
		if r == 0 {
			return 0, errRef
		}
		return refDiv(l, r, n.rm), nil
	case "D":
		ds, err := e.roll(l, r)
		if err != nil {
			return 0, err
		}
		s := 0
		for _, d := range ds {
			s += d.V
		}
		return s, nil
	case "...":
		if l >= r {
			return 0, errRef
		}
		ds, err := e.roll(1, r-l+1)
		if err != nil {
			return 0, err
		}
		return l - 1 + ds[0].V, nil
	}
	return 0, errRef
}

func cmpI(op string, a, b int) bool {
	switch op {
	case "=":
		return a == b
	case "<>":
		return a != b
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	}
	return a >= b
}

func ival(v int) *refN { return &refN{k: "int", v: v} }

// settle evaluates the counts and sides of the rolls.
func (e *refRun) settle(n *refN) (*refN, error) {
	switch n.k {
	case "int":
		return n, nil
	case "...":
		return nil, errRef
	case "D", "B", "R", "U":
		l, err := e.eval(n.l)
		if err != nil {
			return nil, err
		}
		r, err := e.eval(n.r)
		if err != nil {
			return nil, err
		}
		return &refN{k: n.k, l: ival(l), r: ival(r)}, nil
	case "neg":
		r, err := e.settle(n.r)
		return &refN{k: "neg", r: r}, err
	}
	l, err := e.settle(n.l)
	if err != nil {
		return nil, err
	}
	r, err := e.settle(n.r)
	return &refN{k: n.k, l: l, r: r, rm: n.rm}, err
}

func (e *refRun) rollTerms(n *refN) (*refN, error) {
	switch n.k {
	case "D":
		ds, err := e.roll(n.l.v, n.r.v)
		return &refN{k: "sum", dice: ds}, err
	case "int":
		return n, nil
	case "neg":
		r, err := e.rollTerms(n.r)
		return &refN{k: "neg", r: r}, err
	}
	l, err := e.rollTerms(n.l)
	if err != nil {
		return nil, err
	}
	r, err := e.rollTerms(n.r)
	return &refN{k: n.k, l: l, r: r, rm: n.rm}, err
}

type refRes struct {
	Parts   []string
	Dice    []die
	Verdict int // 0 none, 1 success, 2 failure
	Total   int
	Vals    []int
	Groups  [][]int
	Succ    int
	Max     int
	Guard   bool // answered with the threshold message
}

const (
	msgNoR  = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
	msgNoU  = "2U6[5] のように振り足し目標値を指定してください"
	msgLow  = "振り足し目標値として2以上の整数を指定してください"
	mCalc   = "計算結果"
	mSucc   = "成功数"
	mOK     = "成功"
	mNG     = "失敗"
	mMaxSum = " (最大/合計)"
)

func joinI(v []int) string {
	t := []string{}
	for _, x := range v {
		t = append(t, strconv.Itoa(x))
	}
	return strings.Join(t, ",")
}

func (e *refRun) exec(c *refC) (*refRes, error) {
	res := &refRes{}
	settleRolls := func() error {
		for i, r := range c.rolls {
			x, err := e.settle(r)
			if err != nil {
				return err
			}
			c.rolls[i] = x
		}
		return nil
	}
	cc := *c
	c = &cc
	c.rolls = append([]*refN{}, c.rolls...)
	target := 0
	evalT := func() error {
		if c.tgt == nil {
			return nil
		}
		v, err := e.eval(c.tgt)
		target = v
		return err
	}
	suffix := func() string {
		if c.tgt == nil {
			return ""
		}
		return c.op + strconv.Itoa(target)
	}
	switch c.kind {
	case "calc":
		v, err := e.eval(c.e)
		if err != nil {
			return nil, err
		}
		res.Total = v
		res.Parts = []string{"C(" + refNot(c.e, true) + ")", mCalc, strconv.Itoa(v)}
	case "choice":
		ds, err := e.roll(1, len(c.items))
		if err != nil {
			return nil, err
		}
		res.Parts = []string{"(CHOICE[" + strings.Join(c.items, ",") + "])", c.items[ds[0].V-1]}
	case "dexpr", "dcomp":
		n, err := e.settle(c.e)
		if err != nil {
			return nil, err
		}
		if err := evalT(); err != nil {
			return nil, err
		}
		res.Parts = append(res.Parts, "("+refNot(n, true)+suffix()+")")
		n, err = e.rollTerms(n)
		if err != nil {
			return nil, err
		}
		res.Parts = append(res.Parts, refNot(n, true))
		v, err := e.eval(n)
		if err != nil {
			return nil, err
		}
		res.Total = v
		res.Parts = append(res.Parts, strconv.Itoa(v))
		if c.tgt != nil {
			res.Verdict = 2
			if cmpI(c.op, v, target) {
				res.Verdict = 1
			}
			res.Parts = append(res.Parts, []string{mOK, mNG}[res.Verdict-1])
		}
	case "blist", "bcomp":
		if err := settleRolls(); err != nil {
			return nil, err
		}
		if err := evalT(); err != nil {
			return nil, err
		}
		for _, r := range c.rolls {
			ds, err := e.roll(r.l.v, r.r.v)
			if err != nil {
				return nil, err
			}
			for _, d := range ds {
				res.Vals = append(res.Vals, d.V)
			}
		}
		res.Parts = []string{"(" + refNotList(c.rolls) + suffix() + ")", joinI(res.Vals)}
		if c.tgt != nil {
			for _, v := range res.Vals {
				if cmpI(c.op, v, target) {
					res.Succ++
				}
			}
			res.Parts = append(res.Parts, mSucc+strconv.Itoa(res.Succ))
		}
	case "rlist", "rcomp", "uexpr", "ucomp":
		isU := c.kind[0] == 'u'
		hasThr, thr := c.thr != nil, 0
		if hasThr {
			v, err := e.eval(c.thr)
			if err != nil {
				return nil, err
			}
			thr = v
		}
		if err := settleRolls(); err != nil {
			return nil, err
		}
		mod := 0
		if c.bonus != nil {
			v, err := e.eval(c.bonus)
			if err != nil {
				return nil, err
			}
			mod = v
		}
		if err := evalT(); err != nil {
			return nil, err
		}
		if c.kind == "rcomp" && !hasThr {
			hasThr, thr = true, target
		}
		text := refNotList(c.rolls)
		if hasThr {
			text += "[" + strconv.Itoa(thr) + "]"
		}
		text += fmtMod(mod)
		res.Parts = []string{"(" + text + suffix() + ")"}
		if !hasThr || thr < 2 {
			res.Guard = true
			m := msgLow
			if !hasThr {
				m = msgNoR
				if isU {
					m = msgNoU
				}
			}
			res.Parts = append(res.Parts, m)
			res.Dice = nil
			return res, nil
		}
		if !isU {
			q := append([]*refN{}, c.rolls...)
			for i := 0; i < e.max && len(q) > 0; i++ {
				r := q[0]
				q = q[1:]
				ds, err := e.roll(r.l.v, r.r.v)
				if err != nil {
					return nil, err
				}
				g, k := []int{}, 0
				for _, d := range ds {
					g = append(g, d.V)
					if d.V >= thr {
						k++
					}
					if c.tgt != nil && cmpI(c.op, d.V, target) {
						res.Succ++
					}
				}
				res.Groups = append(res.Groups, g)
				if k > 0 {
					q = append(q, &refN{k: "R", l: ival(k), r: r.r})
				}
			}
			t := []string{}
			for _, g := range res.Groups {
				t = append(t, joinI(g))
			}
			res.Parts = append(res.Parts, strings.Join(t, " + "))
		} else {
			t := []string{}
			for ti, r := range c.rolls {
				if r.l.v < 1 || r.r.v < 1 {
					return nil, errRef
				}
				_ = ti
				for i := 0; i < r.l.v; i++ {
					g, sum := []int{}, 0
					for j := 0; j < e.max; j++ {
						ds, err := e.roll(1, r.r.v)
						if err != nil {
							return nil, err
						}
						g = append(g, ds[0].V)
						sum += ds[0].V
						if ds[0].V < thr {
							break
						}
					}
					res.Groups = append(res.Groups, g)
					s := strconv.Itoa(sum)
					if len(g) > 1 {
						s += "[" + joinI(g) + "]"
					}
					t = append(t, s)
					if len(res.Groups) == 1 || sum > res.Max {
						res.Max = sum
					}
					res.Total += sum
					if c.tgt != nil && cmpI(c.op, sum+mod, target) {
						res.Succ++
					}
				}
			}
			res.Max += mod
			res.Total += mod
			res.Parts = append(res.Parts, strings.Join(t, ",")+fmtMod(mod))
			if c.tgt == nil {
				res.Parts = append(res.Parts, strconv.Itoa(res.Max)+"/"+strconv.Itoa(res.Total)+mMaxSum)
			}
		}
		if c.tgt != nil {
			res.Parts = append(res.Parts, mSucc+strconv.Itoa(res.Succ))
		}
	}
	res.Dice = e.log
	return res, nil
}

// refWhole simulates the whole input: secret marker, whole text, first part.
func refWhole(input string, sup func(int) (die, bool)) (res *refRes, secret bool, taken []die) {
	text := input
	if text != "" && (text[0] == 'S' || text[0] == 's') {
		secret = true
		text = text[1:]
	}
	if !utf8.ValidString(text) {
		text = string([]rune(text))
	}
	first := text
	if i := strings.IndexAny(text, "\t\n\f\r "); i >= 0 {
		first = text[:i]
	}
	for _, t := range []string{text, first} {
		c := refParse(t)
		if c == nil {
			continue
		}
		e := &refRun{sup: sup, max: 10000}
		r, err := e.exec(c)
		taken = append(taken, e.taken...)
		if err == nil {
			return r, secret, taken
		}
	}
	return nil, secret, taken
}
