package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

// Sort is an SMT sort. Sorts are interned: compare with ==.
type Sort struct {
	Name string // SMT name
	Elem *Sort  // for sequences
	Data *Data  // for datatypes
}

// Data is an algebraic datatype.
type Data struct {
	Sort  *Sort
	Ctors []*Ctor
}

// Ctor is a constructor of a datatype.
type Ctor struct {
	Name   string
	Fields []CField
	Data   *Data
}

// CField is a field (selector) of a constructor.
type CField struct {
	Name string // Go field name
	Sel  string // SMT selector name
	Sort *Sort
}

func (c *Ctor) FieldIndex(name string) int {
	for i, f := range c.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

var (
	sortTab = map[string]*Sort{}
	sInt    = mkSort("Int")
	sBool   = mkSort("Bool")
	sStr    = mkSort("String")
)

func mkSort(name string) *Sort {
	if s, ok := sortTab[name]; ok {
		return s
	}
	s := &Sort{Name: name}
	sortTab[name] = s
	sortOrder = append(sortOrder, s)
	return s
}

var sortOrder []*Sort

func seqSort(e *Sort) *Sort {
	n := "Seq_" + e.Name
	s := mkSort(n)
	s.Elem = e
	return s
}

func dataSort(name string) *Data {
	s := mkSort(name)
	if s.Data == nil {
		s.Data = &Data{Sort: s}
	}
	return s.Data
}

func (d *Data) ctor(name string) *Ctor {
	for _, c := range d.Ctors {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (d *Data) addCtor(name string) *Ctor {
	c := &Ctor{Name: name, Data: d}
	d.Ctors = append(d.Ctors, c)
	return c
}

func (c *Ctor) addField(name string, s *Sort) {
	c.Fields = append(c.Fields, CField{Name: name, Sel: c.Name + "$" + name, Sort: s})
}

// ---------------------------------------------------------------- terms

type Kind uint8

const (
	KInt   Kind = iota // integer literal
	KStr               // string literal
	KConst             // symbolic constant
	KTrue
	KFalse
	KApp  // uninterpreted or spec function application
	KCtor // constructor application
	KSel  // selector
	KIs   // constructor test
	KIte  // if-then-else
	KEq   // equality
	KNot
	KAnd
	KOr
	KLe    // a <= b
	KAdd   // linear sum: args with coefficients
	KMul   // nonlinear product
	KWrap  // two's complement 64 bit wrap
	KConc  // string concatenation
	KCat   // sequence concatenation
	KUnit  // singleton sequence
	KEmpty // empty sequence
	KLen   // sequence length
	KNth   // sequence element
	KUpd   // sequence update
	KTake
	KDrop
	KAll  // all(pred, seq, extra...)
	KTDiv // truncated division (mathematical)
	KTRem // truncated remainder
	KStrLen
)

type Term struct {
	ID    int
	Kind  Kind
	Sort  *Sort
	Name  string // symbol, constructor, selector, literal
	Int   *big.Int
	Coef  []*big.Int // KAdd: coefficients, Int is the constant
	Args  []*Term
	Ctor  *Ctor
	Sel   int
	key   string
	Fresh bool // KConst introduced by the verifier (may be eliminated by substitution)
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func intern(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.Kind, t.Sort.Name, t.Name)
	if t.Int != nil {
		b.WriteByte('#')
		b.WriteString(t.Int.String())
	}
	for _, c := range t.Coef {
		b.WriteByte('*')
		b.WriteString(c.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.key = k
	t.ID = len(termList)
	termTab[k] = t
	termList = append(termList, t)
	return t
}

var (
	tTrue  = intern(&Term{Kind: KTrue, Sort: sBool})
	tFalse = intern(&Term{Kind: KFalse, Sort: sBool})
	bOne   = big.NewInt(1)
	bZero  = big.NewInt(0)
	minI64 = new(big.Int).Neg(new(big.Int).Lsh(bOne, 63))
	maxI64 = new(big.Int).Sub(new(big.Int).Lsh(bOne, 63), bOne)
	two64  = new(big.Int).Lsh(bOne, 64)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkBig(v *big.Int) *Term { return intern(&Term{Kind: KInt, Sort: sInt, Int: v}) }
func mkInt(v int64) *Term    { return mkBig(big.NewInt(v)) }
func mkStr(s string) *Term   { return intern(&Term{Kind: KStr, Sort: sStr, Name: s}) }
func mkConst(name string, s *Sort) *Term {
	return intern(&Term{Kind: KConst, Sort: s, Name: name})
}

var freshCnt int

func mkFresh(hint string, s *Sort) *Term {
	freshCnt++
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, hint)
	t := mkConst(fmt.Sprintf("%s!%d", hint, freshCnt), s)
	t.Fresh = true
	return t
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	if m := mapFns[name]; m != nil {
		if t := m.mapApp(s, args); t != nil {
			return t
		}
	}
	return intern(&Term{Kind: KApp, Sort: s, Name: name, Args: args})
}

func mkCtor(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Fields) {
		panic(fmt.Sprintf("constructor %s: %d args for %d fields", c.Name, len(args), len(c.Fields)))
	}
	for i, a := range args {
		if a.Sort != c.Fields[i].Sort {
			panic(fmt.Sprintf("constructor %s field %s: sort %s for %s", c.Name, c.Fields[i].Name, a.Sort.Name, c.Fields[i].Sort.Name))
		}
	}
	// C(sel0(x), sel1(x), ...) = x for single constructor datatypes
	if len(args) > 0 && len(c.Data.Ctors) == 1 && args[0].Kind == KSel && args[0].Ctor == c {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Kind != KSel || a.Ctor != c || a.Sel != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return intern(&Term{Kind: KCtor, Sort: c.Data.Sort, Name: c.Name, Ctor: c, Args: args})
}

func mkSel(c *Ctor, i int, x *Term) *Term {
	if x.Sort != c.Data.Sort {
		panic(fmt.Sprintf("selector %s.%s on sort %s", c.Name, c.Fields[i].Name, x.Sort.Name))
	}
	if x.Kind == KCtor && x.Ctor == c {
		return x.Args[i]
	}
	if x.Kind == KIte {
		a, b := x.Args[1], x.Args[2]
		if a.Kind == KCtor && b.Kind == KCtor && a.Ctor == c && b.Ctor == c {
			return mkIte(x.Args[0], a.Args[i], b.Args[i])
		}
	}
	return intern(&Term{Kind: KSel, Sort: c.Fields[i].Sort, Name: c.Fields[i].Sel, Ctor: c, Sel: i, Args: []*Term{x}})
}

func mkIs(c *Ctor, x *Term) *Term {
	if x.Sort != c.Data.Sort {
		panic(fmt.Sprintf("tester %s on sort %s", c.Name, x.Sort.Name))
	}
	if len(c.Data.Ctors) == 1 {
		return tTrue
	}
	if x.Kind == KCtor {
		return mkBool(x.Ctor == c)
	}
	if x.Kind == KIte {
		return mkIte(x.Args[0], mkIs(c, x.Args[1]), mkIs(c, x.Args[2]))
	}
	return intern(&Term{Kind: KIs, Sort: sBool, Name: c.Name, Ctor: c, Args: []*Term{x}})
}

func mkNot(a *Term) *Term {
	switch a.Kind {
	case KTrue:
		return tFalse
	case KFalse:
		return tTrue
	case KNot:
		return a.Args[0]
	}
	return intern(&Term{Kind: KNot, Sort: sBool, Args: []*Term{a}})
}

func mkAnd(as ...*Term) *Term { return mkAO(KAnd, as) }
func mkOr(as ...*Term) *Term  { return mkAO(KOr, as) }

func mkAO(k Kind, as []*Term) *Term {
	zero, unit := tFalse, tTrue
	if k == KOr {
		zero, unit = tTrue, tFalse
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Sort != sBool {
			panic("and/or of non-Bool " + a.String())
		}
		if a == zero {
			return false
		}
		if a == unit || seen[a] {
			return true
		}
		if a.Kind == k {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	// x is one variant: not another one
	if len(out) > 1 {
		is := func(a *Term) *Term { // the variant test in positive position
			if k == KOr {
				if a.Kind != KNot {
					return nil
				}
				a = a.Args[0]
			}
			if a.Kind == KIs {
				return a
			}
			return nil
		}
		isnt := func(a *Term) *Term {
			if k == KAnd {
				if a.Kind != KNot {
					return nil
				}
				a = a.Args[0]
			}
			if a.Kind == KIs {
				return a
			}
			return nil
		}
		var known map[*Term]*Term
		for _, a := range out {
			if x := is(a); x != nil {
				if known == nil {
					known = map[*Term]*Term{}
				}
				if o := known[x.Args[0]]; o != nil && o != x {
					return zero
				}
				known[x.Args[0]] = x
			}
		}
		if known != nil {
			n := out[:0:0]
			for _, a := range out {
				if x := isnt(a); x != nil && known[x.Args[0]] != nil {
					if known[x.Args[0]] == x {
						return zero
					}
					continue
				}
				n = append(n, a)
			}
			out = n
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return intern(&Term{Kind: k, Sort: sBool, Args: out})
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIte(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite of sorts %s and %s", a.Sort.Name, b.Sort.Name))
	}
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.Kind == KNot {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort == sBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	return intern(&Term{Kind: KIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

func isLit(t *Term) bool {
	return t.Kind == KInt || t.Kind == KStr || t.Kind == KTrue || t.Kind == KFalse
}

// mentions: c, a constructor application, has a part that is x or a selection
// from x (below: whether x itself counts).
func mentions(c, x *Term, below bool) bool {
	if c.Kind == KCtor {
		for _, a := range c.Args {
			if mentions(a, x, true) {
				return true
			}
		}
		return false
	}
	for c.Kind == KSel {
		c = c.Args[0]
		if c == x {
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("equality of sorts %s and %s: %s = %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	if a == b {
		return tTrue
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a.Sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.Kind == KCtor && b.Kind == KCtor {
		if a.Ctor != b.Ctor {
			return tFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	// x = C() for nullary constructors is a test
	if a.Kind == KCtor && len(a.Args) == 0 {
		return mkIs(a.Ctor, b)
	}
	if b.Kind == KCtor && len(b.Args) == 0 {
		return mkIs(b.Ctor, a)
	}
	// x = C(.. part of x ..) says which constructor x has, and its other fields
	if a.Kind == KCtor && b.Kind != KIte && mentions(a, b, false) {
		a, b = b, a
	}
	if b.Kind == KCtor && a.Kind != KIte && mentions(b, a, false) {
		cs := []*Term{mkIs(b.Ctor, a)}
		for i, x := range b.Args {
			cs = append(cs, mkEq(mkSel(b.Ctor, i, a), x))
		}
		return mkAnd(cs...)
	}
	// push equality with a literal into ite with literal branches
	if isLit(b) && a.Kind == KIte && isLit(a.Args[1]) && isLit(a.Args[2]) {
		return mkIte(a.Args[0], mkEq(a.Args[1], b), mkEq(a.Args[2], b))
	}
	if isLit(a) && b.Kind == KIte {
		return mkEq(b, a)
	}
	if a.Sort == sInt {
		d := mkSub(a, b)
		if d.Kind == KInt {
			return mkBool(d.Int.Sign() == 0)
		}
	}
	if a.Sort.Elem != nil && a.Kind == KCat && b.Kind == KCat {
		// cancel common prefix and suffix
		x, y := a.Args, b.Args
		for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		if len(x) != len(a.Args) {
			return mkEq(mkCat(a.Sort, x...), mkCat(a.Sort, y...))
		}
	}
	if a.Kind == KUnit && b.Kind == KUnit {
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Kind: KEq, Sort: sBool, Args: []*Term{a, b}})
}

// ------------------------------------------------------- linear arithmetic

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func newLin() *lin { return &lin{c: new(big.Int), ts: map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, k *big.Int) {
	switch t.Kind {
	case KInt:
		l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
	case KAdd:
		l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
		for i, a := range t.Args {
			l.addT(a, new(big.Int).Mul(t.Coef[i], k))
		}
	default:
		l.addT(t, k)
	}
}

func (l *lin) addT(t *Term, k *big.Int) {
	if o, ok := l.ts[t]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.ts, t)
		} else {
			l.ts[t] = n
		}
		return
	}
	if k.Sign() != 0 {
		l.ts[t] = new(big.Int).Set(k)
	}
}

func (l *lin) term() *Term {
	if len(l.ts) == 0 {
		return mkBig(l.c)
	}
	var as []*Term
	for t := range l.ts {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.c.Sign() == 0 && l.ts[as[0]].Cmp(bOne) == 0 {
		return as[0]
	}
	var cs []*big.Int
	for _, a := range as {
		cs = append(cs, l.ts[a])
	}
	return intern(&Term{Kind: KAdd, Sort: sInt, Int: l.c, Args: as, Coef: cs})
}

func mkAdd(as ...*Term) *Term {
	l := newLin()
	for _, a := range as {
		if a.Sort != sInt {
			panic("sum of non-Int " + a.String())
		}
		l.add(a, bOne)
	}
	return l.term()
}

func mkSub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bOne)
	l.add(b, big.NewInt(-1))
	return l.term()
}

func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }

func mkMul(a, b *Term) *Term {
	if a.Kind == KInt {
		a, b = b, a
	}
	if b.Kind == KInt {
		l := newLin()
		l.add(a, b.Int)
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Kind: KMul, Sort: sInt, Args: []*Term{a, b}})
}

// mkWrap is the 64 bit two's complement value of a mathematical integer.
func mkWrap(a *Term) *Term {
	// inner wraps are redundant in sums and products
	l := newLin()
	var strip func(t *Term, k *big.Int)
	strip = func(t *Term, k *big.Int) {
		switch t.Kind {
		case KInt:
			l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
		case KAdd:
			l.c.Add(l.c, new(big.Int).Mul(t.Int, k))
			for i, x := range t.Args {
				strip(x, new(big.Int).Mul(t.Coef[i], k))
			}
		case KWrap:
			strip(t.Args[0], k)
		case KMul:
			x, y := t.Args[0], t.Args[1]
			for x.Kind == KWrap {
				x = x.Args[0]
			}
			for y.Kind == KWrap {
				y = y.Args[0]
			}
			l.add(mkMul(x, y), k)
		default:
			l.add(t, k)
		}
	}
	if a.Kind == KInt || a.Kind == KAdd || a.Kind == KMul || a.Kind == KWrap {
		strip(a, bOne)
		a = l.term()
	}
	if a.Kind == KInt {
		v := new(big.Int).Mod(a.Int, two64)
		if v.Cmp(maxI64) > 0 {
			v.Sub(v, two64)
		}
		return mkBig(v)
	}
	return intern(&Term{Kind: KWrap, Sort: sInt, Args: []*Term{a}})
}

func mkLe(a, b *Term) *Term {
	d := mkSub(b, a)
	if d.Kind == KInt {
		return mkBool(d.Int.Sign() >= 0)
	}
	if d.Kind == KLen || d.Kind == KStrLen {
		return tTrue
	}
	// canonical form: keep sides as constant-normalised difference
	// a <= b  <=>  0 <= d ; not(b <= a-1) is the same atom
	if d.Kind == KAdd {
		// leading coefficient negative: 0 <= d  <=>  not (0 <= -d-1)
		if d.Coef[0].Sign() < 0 {
			return mkNot(intern(&Term{Kind: KLe, Sort: sBool, Args: []*Term{mkSub(mkSub(mkInt(0), d), mkInt(1))}}))
		}
	}
	return intern(&Term{Kind: KLe, Sort: sBool, Args: []*Term{d}}) // 0 <= d
}
func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }

func tdivBig(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }

func mkTDiv(a, b *Term) *Term {
	if a.Kind == KInt && b.Kind == KInt && b.Int.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.Int, b.Int))
	}
	return intern(&Term{Kind: KTDiv, Sort: sInt, Args: []*Term{a, b}})
}
func mkTRem(a, b *Term) *Term {
	if a.Kind == KInt && b.Kind == KInt && b.Int.Sign() != 0 {
		return mkBig(new(big.Int).Rem(a.Int, b.Int))
	}
	return intern(&Term{Kind: KTRem, Sort: sInt, Args: []*Term{a, b}})
}

// ------------------------------------------------------- strings

func mkConc(as ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.Sort != sStr {
			panic("concatenation of non-String " + a.String())
		}
		switch {
		case a.Kind == KConc:
			for _, x := range a.Args {
				add(x)
			}
		case a.Kind == KStr && a.Name == "":
		case a.Kind == KStr && len(out) > 0 && out[len(out)-1].Kind == KStr:
			out[len(out)-1] = mkStr(out[len(out)-1].Name + a.Name)
		default:
			out = append(out, a)
		}
	}
	for _, a := range as {
		add(a)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return intern(&Term{Kind: KConc, Sort: sStr, Args: out})
}

func mkStrLen(a *Term) *Term {
	if a.Kind == KStr {
		return mkInt(int64(len(a.Name)))
	}
	return intern(&Term{Kind: KStrLen, Sort: sInt, Args: []*Term{a}})
}

// ------------------------------------------------------- sequences

func mkEmpty(s *Sort) *Term { return intern(&Term{Kind: KEmpty, Sort: s}) }
func mkUnit(x *Term) *Term {
	return intern(&Term{Kind: KUnit, Sort: seqSort(x.Sort), Args: []*Term{x}})
}
func mkCat(s *Sort, as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Sort != s {
			panic(fmt.Sprintf("cat %s with %s", s.Name, a.Sort.Name))
		}
		switch a.Kind {
		case KCat:
			out = append(out, a.Args...)
		case KEmpty:
		default:
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return mkEmpty(s)
	case 1:
		return out[0]
	}
	return intern(&Term{Kind: KCat, Sort: s, Args: out})
}

func mkLen(s *Term) *Term {
	if s.Sort.Elem == nil {
		panic("len of " + s.Sort.Name)
	}
	switch s.Kind {
	case KEmpty:
		return mkInt(0)
	case KUnit:
		return mkInt(1)
	case KCat:
		var as []*Term
		for _, a := range s.Args {
			as = append(as, mkLen(a))
		}
		return mkAdd(as...)
	case KUpd:
		return mkLen(s.Args[0])
	case KApp:
		if mapOf(s) != nil {
			return mkLen(s.Args[0])
		}
	}
	return intern(&Term{Kind: KLen, Sort: sInt, Args: []*Term{s}})
}

func mkNth(s, i *Term) *Term {
	switch s.Kind {
	case KUnit:
		if i.Kind == KInt && i.Int.Sign() == 0 {
			return s.Args[0]
		}
	case KCat:
		// resolve syntactically when the position is decided
		off := i
		for _, a := range s.Args {
			l := mkLen(a)
			lt := mkLt(off, l)
			if lt == tTrue {
				if off.Kind == KInt && off.Int.Sign() < 0 {
					break
				}
				return mkNth(a, off)
			}
			if a.Kind == KUnit && off.Kind == KInt && off.Int.Sign() == 0 {
				return a.Args[0]
			}
			if lt != tFalse {
				break
			}
			off = mkSub(off, l)
		}
	case KUpd:
		e := mkEq(s.Args[1], i)
		if e == tTrue {
			return s.Args[2]
		}
		if e == tFalse {
			return mkNth(s.Args[0], i)
		}
	case KDrop:
		return mkNth(s.Args[0], mkAdd(s.Args[1], i))
	case KTake:
		return mkNth(s.Args[0], i)
	case KApp:
		if m := mapOf(s); m != nil {
			return m.elem(mkNth(s.Args[0], i), s.Args[1:])
		}
	}
	return intern(&Term{Kind: KNth, Sort: s.Sort.Elem, Args: []*Term{s, i}})
}

func mkUpd(s, i, x *Term) *Term {
	if s.Kind == KUnit && i.Kind == KInt && i.Int.Sign() == 0 {
		return mkUnit(x)
	}
	if s.Kind == KCat && i.Kind == KInt {
		// literal array building
		off := i
		for k, a := range s.Args {
			l := mkLen(a)
			if l.Kind != KInt {
				break
			}
			if off.Int.Cmp(l.Int) < 0 {
				n := append([]*Term{}, s.Args...)
				n[k] = mkUpd(a, off, x)
				return mkCat(s.Sort, n...)
			}
			off = mkSub(off, l)
		}
	}
	return intern(&Term{Kind: KUpd, Sort: s.Sort, Args: []*Term{s, i, x}})
}

func mkDrop(s, k *Term) *Term {
	if k.Kind == KInt && k.Int.Sign() == 0 {
		return s
	}
	if s.Kind == KDrop {
		return mkDrop(s.Args[0], mkAdd(s.Args[1], k))
	}
	if s.Kind == KCat && k.Kind == KInt {
		l := mkLen(s.Args[0])
		if l.Kind == KInt && l.Int.Cmp(k.Int) <= 0 {
			return mkDrop(mkCat(s.Sort, s.Args[1:]...), mkSub(k, l))
		}
	}
	if s.Kind == KUpd {
		if d := mkSub(k, s.Args[1]); d.Kind == KInt && d.Int.Sign() > 0 {
			return mkDrop(s.Args[0], k)
		}
	}
	if mkEq(k, mkLen(s)) == tTrue {
		return mkEmpty(s.Sort)
	}
	if mapOf(s) != nil {
		return mkApp(s.Name, s.Sort, append([]*Term{mkDrop(s.Args[0], k)}, s.Args[1:]...)...)
	}
	return intern(&Term{Kind: KDrop, Sort: s.Sort, Args: []*Term{s, k}})
}

func mkTake(s, k *Term) *Term {
	if k.Kind == KInt && k.Int.Sign() == 0 {
		return mkEmpty(s.Sort)
	}
	if s.Kind == KUpd {
		// an update only arises from a store whose index is in range
		if d := mkSub(k, s.Args[1]); d.Kind == KInt {
			if d.Int.Sign() <= 0 {
				return mkTake(s.Args[0], k)
			}
			if d.Int.IsInt64() && d.Int.Int64() == 1 {
				return mkCat(s.Sort, mkTake(s.Args[0], s.Args[1]), mkUnit(s.Args[2]))
			}
		}
	}
	if mkEq(k, mkLen(s)) == tTrue {
		return s
	}
	if mapOf(s) != nil {
		return mkApp(s.Name, s.Sort, append([]*Term{mkTake(s.Args[0], k)}, s.Args[1:]...)...)
	}
	return intern(&Term{Kind: KTake, Sort: s.Sort, Args: []*Term{s, k}})
}

// mkAll: every element x of s satisfies the spec predicate pred(x, extra...).
func mkAll(pred string, s *Term, extra ...*Term) *Term {
	switch s.Kind {
	case KEmpty:
		return tTrue
	case KUnit:
		return mkApp(pred, sBool, append([]*Term{s.Args[0]}, extra...)...)
	case KCat:
		var cs []*Term
		for _, a := range s.Args {
			cs = append(cs, mkAll(pred, a, extra...))
		}
		return mkAnd(cs...)
	}
	return intern(&Term{Kind: KAll, Sort: sBool, Name: pred, Args: append([]*Term{s}, extra...)})
}

// ------------------------------------------------------- the heap of die feeders

func heapSort(e *Sort) *Sort {
	s := mkSort("(Array Int " + e.Name + ")")
	s.Elem = nil
	heapElem[s] = e
	return s
}

// arraySort: total functions from k to e.
func arraySort(k, e *Sort) *Sort {
	if k == sInt {
		return heapSort(e)
	}
	s := mkSort("(Array " + k.Name + " " + e.Name + ")")
	heapElem[s] = e
	arrayKey[s] = k
	return s
}

var arrayKey = map[*Sort]*Sort{}

var heapElem = map[*Sort]*Sort{}

func mkSelect(h, r *Term) *Term {
	for h.Kind == KApp && h.Name == "store" {
		e := mkEq(h.Args[1], r)
		if e == tTrue {
			return h.Args[2]
		}
		if e != tFalse {
			break
		}
		h = h.Args[0]
	}
	if h.Kind == KApp && h.Name == "empty_map" {
		return h.Args[0]
	}
	return mkApp("select", heapElem[h.Sort], h, r)
}

func mkStore(h, r, v *Term) *Term {
	if h.Kind == KApp && h.Name == "store" && h.Args[1] == r {
		h = h.Args[0]
	}
	if v == mkSelect(h, r) {
		return h
	}
	return mkApp("store", h.Sort, h, r, v)
}

// ------------------------------------------------------- rebuilding

// rebuild applies the smart constructor of t to new arguments.
func rebuild(t *Term, as []*Term) *Term {
	switch t.Kind {
	case KApp:
		switch t.Name {
		case "select":
			return mkSelect(as[0], as[1])
		case "store":
			return mkStore(as[0], as[1], as[2])
		}
		return mkApp(t.Name, t.Sort, as...)
	case KCtor:
		return mkCtor(t.Ctor, as...)
	case KSel:
		return mkSel(t.Ctor, t.Sel, as[0])
	case KIs:
		return mkIs(t.Ctor, as[0])
	case KIte:
		return mkIte(as[0], as[1], as[2])
	case KEq:
		return mkEq(as[0], as[1])
	case KNot:
		return mkNot(as[0])
	case KAnd:
		return mkAnd(as...)
	case KOr:
		return mkOr(as...)
	case KLe:
		return mkLe(mkInt(0), as[0])
	case KAdd:
		l := newLin()
		l.c.Set(t.Int)
		for i, a := range as {
			l.add(a, t.Coef[i])
		}
		return l.term()
	case KMul:
		return mkMul(as[0], as[1])
	case KWrap:
		return mkWrap(as[0])
	case KConc:
		return mkConc(as...)
	case KCat:
		return mkCat(t.Sort, as...)
	case KUnit:
		return mkUnit(as[0])
	case KLen:
		return mkLen(as[0])
	case KNth:
		return mkNth(as[0], as[1])
	case KUpd:
		return mkUpd(as[0], as[1], as[2])
	case KTake:
		return mkTake(as[0], as[1])
	case KDrop:
		return mkDrop(as[0], as[1])
	case KAll:
		return mkAll(t.Name, as[0], as[1:]...)
	case KTDiv:
		return mkTDiv(as[0], as[1])
	case KTRem:
		return mkTRem(as[0], as[1])
	case KStrLen:
		return mkStrLen(as[0])
	}
	return t
}

// subst replaces terms bottom-up according to m (applied to results as well).
type subster struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(m map[*Term]*Term) *subster { return &subster{m, map[*Term]*Term{}} }

func (s *subster) app(t *Term) *Term {
	if r, ok := s.memo[t]; ok {
		return r
	}
	if r, ok := s.m[t]; ok {
		s.memo[t] = t // guards against cycles
		r = s.app(r)
		if r != t && len(t.Args) > 0 && r.contains(t, map[*Term]bool{}) {
			r = t // a rewrite that reproduces its own left side is no rewrite
		}
		s.memo[t] = r
		return r
	}
	r := t
	if len(t.Args) > 0 {
		s.memo[t] = t // guards against cycles
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = s.app(a)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			r = rebuild(t, as)
			if r != t {
				s.memo[t] = r
				r = s.app(r)
			}
		}
		if r == t {
			r = boundsSimp(s.m, t)
		}
	}
	s.memo[t] = r
	return r
}

// linBody splits a difference into a body with a positive leading
// coefficient, its sign, and the constant.
func linBody(d *Term) (b *Term, neg bool, c *big.Int) {
	if d.Kind != KAdd {
		return d, false, new(big.Int)
	}
	c = d.Int
	b = mkSub(d, mkBig(c))
	if b.Kind == KAdd && b.Coef[0].Sign() < 0 {
		b, neg = mkSub(mkInt(0), b), true
	}
	return
}

func loKey(b *Term) *Term { return mkApp("$lo", sInt, b) }
func hiKey(b *Term) *Term { return mkApp("$hi", sInt, b) }

// boundsSimp decides comparisons from known bounds.
func boundsSimp(m map[*Term]*Term, t *Term) *Term {
	switch t.Kind {
	case KLe: // 0 <= d
		if t.Args[0].Kind == KInt {
			return t
		}
		b, neg, c := linBody(t.Args[0])
		lo, hi := m[loKey(b)], m[hiKey(b)]
		if neg { // 0 <= -b + c
			lo, hi = hi, lo
			if lo != nil && new(big.Int).Sub(c, lo.Int).Sign() >= 0 {
				return tTrue
			}
			if hi != nil && new(big.Int).Sub(c, hi.Int).Sign() < 0 {
				return tFalse
			}
			return t
		}
		if lo != nil && new(big.Int).Add(c, lo.Int).Sign() >= 0 {
			return tTrue
		}
		if hi != nil && new(big.Int).Add(c, hi.Int).Sign() < 0 {
			return tFalse
		}
	case KEq:
		x, y := t.Args[0], t.Args[1]
		if x.Sort == sInt {
			d := mkSub(x, y)
			if d.Kind == KInt {
				return t
			}
			b, neg, c := linBody(d)
			v := new(big.Int).Neg(c)
			if neg {
				v = c
			}
			if lo := m[loKey(b)]; lo != nil && v.Cmp(lo.Int) < 0 {
				return tFalse
			}
			if hi := m[hiKey(b)]; hi != nil && v.Cmp(hi.Int) > 0 {
				return tFalse
			}
			return t
		}
		for k := 0; k < 2; k++ {
			if x.Kind == KCtor && y.Kind != KCtor && len(x.Ctor.Data.Ctors) > 1 && m[mkIs(x.Ctor, y)] == tFalse {
				return tFalse
			}
			x, y = y, x
		}
	}
	return t
}

// learnBound records bounds of a body.
func learnBound(m map[*Term]*Term, f *Term) {
	pos := true
	if f.Kind == KNot {
		pos = false
		f = f.Args[0]
	}
	setLo := func(b *Term, v *big.Int) {
		for m[mkEq(b, mkBig(v))] == tFalse {
			v = new(big.Int).Add(v, big.NewInt(1))
		}
		if o := m[loKey(b)]; o == nil || o.Int.Cmp(v) < 0 {
			m[loKey(b)] = mkBig(v)
		}
	}
	setHi := func(b *Term, v *big.Int) {
		for m[mkEq(b, mkBig(v))] == tFalse {
			v = new(big.Int).Sub(v, big.NewInt(1))
		}
		if o := m[hiKey(b)]; o == nil || o.Int.Cmp(v) > 0 {
			m[hiKey(b)] = mkBig(v)
		}
	}
	var b *Term
	switch f.Kind {
	case KLe:
		if f.Args[0].Kind == KInt {
			return
		}
		var neg bool
		var c *big.Int
		b, neg, c = linBody(f.Args[0])
		one := big.NewInt(1)
		switch {
		case pos && !neg: // b >= -c
			setLo(b, new(big.Int).Neg(c))
		case pos && neg: // b <= c
			setHi(b, c)
		case !pos && !neg: // b + c <= -1
			setHi(b, new(big.Int).Sub(new(big.Int).Neg(c), one))
		default: // -b + c <= -1
			setLo(b, new(big.Int).Add(c, one))
		}
	case KEq:
		if pos || f.Args[0].Sort != sInt {
			return
		}
		d := mkSub(f.Args[0], f.Args[1])
		if d.Kind == KInt {
			return
		}
		var neg bool
		var c *big.Int
		b, neg, c = linBody(d)
		v := new(big.Int).Neg(c)
		if neg {
			v = c
		}
		m[mkEq(b, mkBig(v))] = tFalse
		if (b.Kind == KLen || b.Kind == KStrLen) && m[loKey(b)] == nil {
			setLo(b, new(big.Int))
		}
		if o := m[loKey(b)]; o != nil && o.Int.Cmp(v) == 0 {
			setLo(b, v)
		}
		if o := m[hiKey(b)]; o != nil && o.Int.Cmp(v) == 0 {
			setHi(b, v)
		}
	default:
		return
	}
	if b.Kind == KLen || b.Kind == KStrLen {
		if m[loKey(b)] == nil {
			setLo(b, new(big.Int))
		}
	}
	lo, hi := m[loKey(b)], m[hiKey(b)]
	if lo != nil && hi != nil && lo == hi && b.Kind != KAdd && m[b] == nil {
		m[b] = lo
	}
}

func (t *Term) contains(x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if a.contains(x, seen) {
			return true
		}
	}
	return false
}

// ------------------------------------------------------- printing (debug)

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	args := func(sep string) string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, sep)
	}
	switch t.Kind {
	case KInt:
		return t.Int.String()
	case KStr:
		return fmt.Sprintf("%q", t.Name)
	case KConst:
		return t.Name
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KApp, KCtor:
		if len(t.Args) == 0 {
			return t.Name
		}
		return t.Name + "(" + args(", ") + ")"
	case KSel:
		return t.Args[0].str(d-1) + "." + t.Ctor.Fields[t.Sel].Name
	case KIs:
		return "is-" + t.Name + "(" + args("") + ")"
	case KIte:
		return "(if " + t.Args[0].str(d-1) + " then " + t.Args[1].str(d-1) + " else " + t.Args[2].str(d-1) + ")"
	case KEq:
		return "(" + args(" = ") + ")"
	case KNot:
		return "!" + args("")
	case KAnd:
		return "(" + args(" && ") + ")"
	case KOr:
		return "(" + args(" || ") + ")"
	case KLe:
		return "(0 <= " + args("") + ")"
	case KAdd:
		var ss []string
		for i, a := range t.Args {
			c := t.Coef[i].String()
			if c == "1" {
				ss = append(ss, a.str(d-1))
			} else {
				ss = append(ss, c+"*"+a.str(d-1))
			}
		}
		if t.Int.Sign() != 0 {
			ss = append(ss, t.Int.String())
		}
		return "(" + strings.Join(ss, "+") + ")"
	case KMul:
		return "(" + args("*") + ")"
	case KConc, KCat:
		return "(" + args("++") + ")"
	case KEmpty:
		return "[]"
	case KUnit:
		return "[" + args("") + "]"
	case KNth:
		return t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	}
	n := map[Kind]string{KWrap: "wrap", KLen: "len", KUpd: "upd", KTake: "take", KDrop: "drop", KAll: "all", KTDiv: "tdiv", KTRem: "trem", KStrLen: "strlen"}[t.Kind]
	return n + t.Name + "(" + args(", ") + ")"
}
